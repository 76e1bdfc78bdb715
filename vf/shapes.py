"""Views of the compile-time constants of the corpus."""
import re


class Corpus:
    def __init__(self, fx):
        self.cr = fx.crate("facet_witness")
        d = self.cr.d
        self.types, self.allocs, self.insts = d["types"], d["allocs"], d["insts"]
        self.entries = d["corpus"]
        self._shape_of_fn = {}
        # type id (index into types) of a Shape alloc, by alloc
        self._id = {}

    def ts(self, k):
        return self.types[k]["s"] if isinstance(k, int) else str(k)

    def deref(self, v):
        n = 0
        while isinstance(v, dict) and "ref" in v and n < 50:
            v = self.allocs[v["ref"]]["v"]
            n += 1
        return v

    def f(self, v, name):
        """field of an ADT value, references followed"""
        v = self.deref(v)
        if isinstance(v, dict) and "f" in v:
            return v["f"].get(name)
        return None

    def var(self, v):
        v = self.deref(v)
        return v.get("var") if isinstance(v, dict) else None

    def opt(self, v):
        """Option value -> payload or None"""
        v = self.deref(v)
        if isinstance(v, dict) and v.get("var") == "Some":
            return v["f"]["0"]
        return None

    def is_some(self, v):
        return self.var(v) == "Some"

    def lst(self, v):
        v = self.deref(v)
        return v if isinstance(v, list) else None

    def shape_adt(self, v):
        v = self.deref(v)
        return v if isinstance(v, dict) and v.get("adt", "").endswith("::Shape") else None

    def fnptrs(self, v, depth=0):
        """every function pointer inside a value (not through references)"""
        out = []
        if isinstance(v, dict):
            if "fnptr" in v:
                return [v]
            for x in v.get("f", {}).values():
                out += self.fnptrs(x, depth + 1)
        elif isinstance(v, list):
            for x in v:
                out += self.fnptrs(x, depth + 1)
        return out

    def id_type(self, shape):
        """The type a shape's identity is derived from (None when it cannot be told)."""
        v = self.f(shape, "id")
        v = self.deref(v)
        ps = self.fnptrs(v)
        if len(ps) == 1 and len(ps[0]["args"]) == 1 and isinstance(ps[0]["args"][0], int):
            return ps[0]["args"][0]
        return None

    def align(self, layout):
        a = self.f(layout, "align")
        s = repr(a)
        m = re.search(r"_Align1Shl(\d+)", s)
        if m:
            return 1 << int(m.group(1))
        return a if isinstance(a, int) else None

    # ---- which shape does `fn() -> &'static Shape` return?
    def shape_fn(self, fp):
        fp = self.deref(fp)
        if self.shape_adt(fp):
            return fp
        if not (isinstance(fp, dict) and "inst" in fp):
            return None
        return self.const_return(fp["inst"])

    def const_return(self, inst, depth=0):
        if inst in self._shape_of_fn:
            return self._shape_of_fn[inst]
        if depth > 12:
            return None
        self._shape_of_fn[inst] = None
        b = self.insts[inst].get("body")
        r = self._ret(b, depth, self.insts[inst]) if b else None
        self._shape_of_fn[inst] = r
        return r

    def _ret(self, body, depth, inst):
        env = {}
        bb, steps = 0, 0

        def place(p):
            v = env.get(p[0])
            for e in p[1]:
                if e == "*":
                    pass
                elif isinstance(e, list) and e[0] == "f" and isinstance(v, dict) and "f" in (self.deref(v) or {}):
                    v = self.deref(v)["f"].get(e[2])
                else:
                    return None
            return v

        def op(o):
            if o[0] in ("c", "m"):
                return place(o[1])
            if o[0] == "k":
                c = o[1]
                if c.get("val") is not None:
                    return c["val"]
                if "promoted" in c:
                    pb = inst.get("promoted") or []
                    if c["promoted"] < len(pb):
                        return self._ret(pb[c["promoted"]], depth + 1, inst)
                return c.get("str")
            return None

        while steps < 200:
            steps += 1
            blk = body["blocks"][bb]
            for st in blk["s"]:
                if st[0] != "=":
                    continue
                (l, proj), rv = st[1], st[2]
                v = None
                if rv[0] == "use":
                    v = op(rv[1])
                elif rv[0] in ("ref", "raw"):
                    v = place(rv[2])
                elif rv[0] == "cast":
                    v = op(rv[2])
                if proj == []:
                    env[l] = v
            t = blk["t"]
            if t[0] == "ret":
                return env.get(0)
            if t[0] == "goto":
                bb = t[1]
            elif t[0] == "drop":
                bb = t[2]
            elif t[0] == "assert":
                bb = t[4]
            elif t[0] == "call":
                fn = t[1][1].get("fn") if t[1][0] == "k" else None
                v = None
                if fn and "inst" in fn:
                    v = self.const_return(fn["inst"], depth + 1)
                if t[3][1] == []:
                    env[t[3][0]] = v
                if t[4] is None:
                    return None
                bb = t[4]
            else:
                return None
        return None

    def shapes(self):
        """all Shape allocs reachable: (alloc index, value)"""
        for k, a in enumerate(self.allocs):
            if isinstance(a, dict) and isinstance(a.get("v"), dict) and a["v"].get("adt", "").endswith("types::Shape"):
                yield k, a["v"]
