"""JSON: what the writer writes is one JSON value that stands for the value it was given."""
import re
from . import flow, vt
from .absint import Interp, State, Undecided, INTS, K, add, atom, is_lin, mul, num
from .poly import item_of
from .vt import fname
from .c_msgpack import targ, okret

CR = "facet_json"


def policy(c, fn):
    if c.id.split("::")[-1] in ("from_ref",):
        return False
    if "::fmt::" in c.id or "::fmt" == c.id[-5:]:
        return False
    return c.crate.name in (CR, "facet_vf_models") or (c.crate.name in ("core", "alloc", "std") and len(c.body["blocks"]) < 16)


def program(fx):
    p = flow.PolyProgram(fx, ["facet_core", "facet_reflect", CR], models=True)

    def variants(end, **kw):
        a = next((a for a in fx.crate("facet_core").d["adts"] if a["id"].endswith("::" + end) and a.get("variants")), None)
        return {v["name"]: i for i, v in enumerate(a["variants"])} if a else {}
    p.defs = variants("Def")
    p.kinds = variants("StructKind")
    p.attrs = variants("FieldAttribute")
    return p


def template(bs, args):
    """the pieces of a formatting template"""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(("lit", bytes(bs[i:i + n]).decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            m = bs[i] | bs[i + 1] << 8
            out.append(("lit", bytes(bs[i + 2:i + 2 + m]).decode("utf-8", "replace")))
            i += 2 + m
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                width = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 8:
                nxt = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 0x30 or nxt >= len(args):
                return None
            a = args[nxt]
            nxt += 1
            if not (isinstance(a, tuple) and a[0] == "arg"):
                return None
            out += shown(a[1], a[2], (flags, width, prec))
    return out


def shown(how, v, spec=(None, None, None)):
    if how == "new_display" and spec == (None, None, None):
        if isinstance(v, tuple) and v and v[0] == "str":
            return [("lit", v[1])]
        if isinstance(v, tuple) and v and v[0] == "pieces":
            return list(v[1])
        if isinstance(v, bool):
            return [("lit", "true" if v else "false")]
    return [("disp", how, v, spec)]


class Again(Exception):
    pass


def places(x, out):
    """locals named in a piece of MIR"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            out.add(x[0])
            for y in x[1]:
                if isinstance(y, list) and y and y[0] == "i":
                    out.add(y[1])
            return
        for y in x:
            places(y, out)


def liveness(g):
    """loop head -> locals that may be read from there on; what is borrowed anywhere counts as read"""
    use, kill, borrowed = {}, {}, set()
    blocks = sorted(g.reachable())
    for bi in blocks:
        u, k = set(), set()
        b = g.blocks[bi]

        def read(x):
            o = set()
            places(x, o)
            u.update(o - k)
        for s in b["s"]:
            if s[0] != "=":
                continue
            if s[2][0] in ("ref", "raw") and not s[2][2][1]:
                borrowed.add((bi, s[2][2][0]))
            read(s[2])
            if s[1][1]:
                read(s[1])
            else:
                k.add(s[1][0])
        t = b["t"]
        if t[0] == "call":
            read(t[1])
            read(t[2])
            if t[3][1]:
                read(t[3])
            else:
                k.add(t[3][0])
        elif t[0] in ("switch", "assert"):
            read(t[1])
        elif t[0] == "ret":
            read([g.blocks[bi].get("ret", 0), []])
        use[bi], kill[bi] = u, k
    out = {bi: set() for bi in blocks}
    pred = {}
    for bi in blocks:
        for s in g.succs(bi):
            if s is not None:
                pred.setdefault(s, set()).add(bi)
    inn = {bi: set(use[bi]) for bi in blocks}
    todo = list(blocks)
    while todo:
        bi = todo.pop()
        for q in pred.get(bi, ()):
            if q not in out:
                continue
            new = inn[bi] - out[q]
            if new:
                out[q] |= new
                add_ = (new - kill[q]) - inn[q]
                if add_:
                    inn[q] |= add_
                    todo.append(q)
    heads = g._heads
    res = {}
    for h, body in heads.items():
        res[h] = set(inn.get(h, ())) | {l for b, l in borrowed if b not in body}
    return res


class Js(Interp):
    """loops are run once as they begin and then once more for all later turns"""
    keep = True
    shrinking = ()
    rec = ()                # functions that write one whole value
    leaf = {}               # functions that write a string: id -> "string" (quoted) or "chars"

    # ------------------------------------------------------------ loops
    def live(self, head):
        """locals whose value at the head of a loop may be read"""
        g = self.g
        if not hasattr(g, "_loop_live"):
            g._loop_live = liveness(g)
        return g._loop_live.get(head, ())

    def enter(self, st, bi, frm):
        if bi not in self.heads:
            return st
        body = self.heads[bi]
        n = dict(st.loops).get(bi, 0) if frm in body else 0
        st = st.copy()
        if n == 0:
            st.loops = tuple(x for x in st.loops if x[0] not in body) + ((bi, 1),)
            st.event("first", bi)
            return st
        if n >= 2:
            e = next(e for e in reversed(st.events) if e[0] == "enter" and e[1] == bi)
            for root, path, first, now in e[2]:
                v = self.at_path(st, root, path)
                if v is None or not is_lin(v) or not self.holds(st, add(v, now, -1)):
                    if (bi, root, path) not in self.shrinking:
                        self.shrinking.add((bi, root, path))
                        raise Again()
        self.outs.append(("turn", bi, st.copy(), n))
        if n >= 2:
            kept = next(e for e in reversed(st.events) if e[0] == "kept" and e[1] == bi)[2]
            changed = {r for r, v in kept if self.coarse(st.mem.get(r)) != v}
            if not changed or n > 3:
                return None
            self.keep = changed
        else:
            self.keep = True
        st.loops = tuple(x for x in st.loops if x[0] not in body) + ((bi, n + 1),)
        live = self.live(bi)
        for l in [l for l in st.mem if isinstance(l, int) and l not in live]:
            del st.mem[l]
        old = dict(st.mem)
        self.forget(st, bi, body)
        st.event("kept", bi, tuple((r, self.coarse(v)) for r, v in st.mem.items() if old.get(r) is not None and self.has_kept(v)))
        self.keep = True
        return st

    def run(self):
        self.shrinking = set()
        while True:
            self.outs = []
            try:
                return Interp.run(self)
            except Again:
                if len(self.shrinking) > 20:
                    raise Undecided("a loop whose variables go both ways")

    def has_kept(self, v):
        if isinstance(v, bool):
            return True
        if isinstance(v, tuple) and v:
            if v[0] in ("str", "pieces"):
                return True
            if v[0] == "agg":
                return True
        return False

    def coarse(self, v):
        """a value without what may differ from turn to turn"""
        if is_lin(v):
            return "n"
        if isinstance(v, tuple) and v and v[0] == "pieces":
            return "p"
        if isinstance(v, tuple) and v and v[0] == "agg":
            return (v[1] if isinstance(v[1], str) else "?", v[2], tuple(self.coarse(x) for x in v[3]))
        if isinstance(v, tuple) and v and v[0] in ("sym", "refv"):
            return "s"
        return v

    def havoc(self, st, p, b, head):
        if isinstance(self.keep, set):
            l = p[0]
            if "*" not in p[1] and l in self.keep:
                st.mem[l] = ("sym", ("loop", self.new()))
                return
        Interp.havoc(self, st, p, b, head)

    def unknown(self, old, t):
        if isinstance(old, bool):
            return old
        if isinstance(old, tuple) and old and old[0] in ("pieces",):
            return ("pieces", (("more",),))
        if isinstance(old, tuple) and old and old[0] == "agg" and old[1] == "#Iter":
            return (old[0], old[1], old[2], (old[3][0], atom(("s", "usize", ("loop", self.new())))))
        return Interp.unknown(self, old, t)

    def invariants(self, st, head, info):
        for root, path, first, now in info:
            if (head, root, path) not in self.shrinking:
                st.facts = st.facts + (add(now, first, -1),)

    # ------------------------------------------------------------ values
    def piter(self, src):
        return ("agg", "#Iter", 0, (src, K(0)))

    def count(self, src):
        n = src[1] if src[0] == "sym" else None
        if isinstance(n, tuple) and n and n[0] in ("enumerate", "plain", "zip", "rev", "from"):
            return self.count(n[1])
        return self.length(None, src)

    def elem(self, src, i):
        return ("refv", ("sym", ("[]", src, i)))

    def item(self, src, i):
        """the i-th thing an iterator gives, through the adaptors that are modelled"""
        n = src[1] if src[0] == "sym" else None
        if isinstance(n, tuple) and n and n[0] == "enumerate":
            return ("agg", "tuple", 0, (add(i, n[2]), self.item(n[1], i)))
        if isinstance(n, tuple) and n and n[0] == "zip":
            return ("agg", "tuple", 0, (self.item(n[1], i), self.item(n[2], i)))
        if isinstance(n, tuple) and n and n[0] == "plain":
            v = self.item(n[1], i)
            return v[1] if isinstance(v, tuple) and v and v[0] == "refv" else v
        if isinstance(n, tuple) and n and n[0] == "rev":
            return self.item(n[1], add(self.count(n[1]), add(i, K(1)), -1))
        if isinstance(n, tuple) and n and n[0] == "from":
            return self.item(n[1], add(i, n[2]))
        return self.elem(src, i)

    def adaptor(self, st, it, D):
        """an iterator made of others"""
        if not (isinstance(D[0], tuple) and D[0][:2] == ("agg", "#Iter") and D[0][3][1] == K(0)):
            return None
        src = D[0][3][0]
        if it == "enumerate" and len(D) == 1:
            return self.piter(("sym", ("enumerate", src, K(0))))
        if it in ("copied", "cloned") and len(D) == 1:
            return self.piter(("sym", ("plain", src)))
        if it == "rev" and len(D) == 1:
            return self.piter(("sym", ("rev", src)))
        if it == "zip" and len(D) == 2:
            o = D[1]
            if isinstance(o, tuple) and o[0] == "agg" and str(o[1]).endswith("RangeFrom") and is_lin(o[3][0]):
                return None
            if isinstance(o, tuple) and o[0] == "sym" and not o[1:2] == ("loop",):
                o = self.piter(o)
            if isinstance(o, tuple) and o[:2] == ("agg", "#Iter") and o[3][1] == K(0) and self.count(src) == self.count(o[3][0]):
                return self.piter(("sym", ("zip", src, o[3][0])))
        return None

    def write_pieces(self, st, w, ps):
        """append to a buffer of our own, or tell the writer"""
        if isinstance(w, tuple) and w and w[0] == "ref":
            v = self.read(st, w[1], list(w[2]))
            n = 0
            while isinstance(v, tuple) and v and v[0] == "ref" and n < 5:
                w = v
                v = self.read(st, w[1], list(w[2]))
                n += 1
            if isinstance(v, tuple) and v and v[0] == "pieces":
                self.put(st, w[1], list(w[2]), ("pieces", v[1] + tuple(ps)))
                for x in ps:
                    st.event("buf", (w[1], w[2]), x)
                return
        for x in ps:
            st.event("out", x)

    def text(self, st, v):
        """the pieces of something written as it is"""
        v = self.deref(st, v)
        if isinstance(v, tuple) and v:
            if v[0] == "str":
                return [("lit", v[1])]
            if v[0] == "bytes":
                return [("lit", bytes(v[1]).decode("latin-1"))]
            if v[0] == "pieces":
                return list(v[1])
            if v[0] == "agg" and v[1] == "array":
                return [("lit", chr(num(x))) if is_lin(x) and num(x) is not None and num(x) < 128 else ("byte", x) for x in v[3]]
            if is_lin(v):
                return [("lit", chr(num(v)))] if num(v) is not None else [("char", v)]
        return [("raw", v)]

    def fails(self, st):
        b = st.copy()
        b.conds["io"] = True
        return (b, self.errv(("sym", "io")))

    UNIT = ("agg", "tuple", 0, ())

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        r = self.leafcall(st, f, args, D) if self.leaf else None
        if r is not None:
            return r
        if it == "from_str" and "Arguments" in nm:
            return [(st, ("pieces", tuple(self.text(st, D[0]))))]
        if nm.find("fmt::rt::Argument") >= 0 and it.startswith("new_"):
            return [(st, ("arg", it, D[0]))]
        if it == "new" and "Arguments" in nm and len(args) == 2:
            bs = D[0]
            bs = bs[1] if bs[0] == "bytes" else tuple(num(x) for x in bs[3]) if bs[0] == "agg" and all(is_lin(x) for x in bs[3]) else None
            as_ = D[1][3] if D[1][0] == "agg" else None
            ps = template(bs, as_) if bs is not None and as_ is not None else None
            return [(st, ("pieces", tuple(ps)) if ps is not None else ("sym", ("arguments", self.new())))]
        if it in ("format", "must_use", "format_inner") and len(args) == 1 and isinstance(D[0], tuple) and D[0][0] == "pieces":
            return [(st, D[0])]
        if it in ("new", "with_capacity") and ("String" in nm or "Vec" in nm):
            return [(st, ("pieces", ()))]
        if it in ("write_fmt", "write_all", "write_str", "write_char", "push_str", "push", "extend_from_slice", "write") and len(args) == 2:
            a = st.copy()
            ps = list(D[1][1]) if isinstance(D[1], tuple) and D[1] and D[1][0] == "pieces" else self.text(st, args[1])
            if it == "push" and "Vec" in nm:
                ps = [("lit", chr(num(D[1])))] if is_lin(D[1]) and num(D[1]) is not None and num(D[1]) < 128 else [("byte", D[1])]
            if it == "write_fmt" and not (isinstance(D[1], tuple) and D[1][0] == "pieces"):
                ps = [("raw", D[1])]
            self.write_pieces(a, args[0], ps)
            if it in ("push_str", "push", "extend_from_slice"):
                return [(a, self.UNIT)]
            return [(a, self.okv(self.UNIT)), self.fails(st)]
        if it == "to_string" or it == "into" and dt.endswith("String"):
            if isinstance(D[0], tuple) and D[0][0] in ("str", "pieces"):
                return [(st, ("pieces", tuple(self.text(st, D[0]))))]
            if isinstance(D[0], tuple) and self.isstr(D[0]):
                return [(st, D[0])]
            return [(st, ("pieces", tuple(shown("new_display", D[0]))))]
        if it in ("as_bytes", "deref", "as_str", "as_ref", "borrow", "into_bytes", "as_slice", "as_mut", "deref_mut", "by_ref", "into_string", "clone", "to_owned", "as_mut_str", "into_owned") and len(args) == 1 \
                and isinstance(D[0], tuple) and D[0] and (D[0][0] in ("pieces", "str") or self.isstr(D[0]) or D[0][:2] == ("agg", "#Iter")):
            if it in ("by_ref", "as_mut", "deref_mut"):
                return [(st, args[0])]
            return [(st, D[0])]
        if it in ("into_iter", "by_ref") and D and isinstance(D[0], tuple) and D[0][:2] == ("agg", "#Iter"):
            return [(st, D[0] if it == "into_iter" and args[0][0] != "ref" else args[0])]
        if it == "next" and D and isinstance(D[0], tuple) and D[0][:2] == ("agg", "#Iter") and args[0][0] == "ref":
            src, i = D[0][3]
            out = []
            for s, x in self.cond(st, self.binop(st, "Lt", i, self.count(src), None)):
                if x:
                    s = s.copy()
                    w = args[0]
                    while True:
                        v = self.read(s, w[1], list(w[2]))
                        if isinstance(v, tuple) and v and v[0] == "ref":
                            w = v
                        else:
                            break
                    self.put(s, w[1], list(w[2]), ("agg", "#Iter", 0, (src, add(i, K(1)))))
                    out.append((s, self.some(self.item(src, i))))
                else:
                    out.append((s, self.NONE))
            return out
        if it in ("enumerate", "copied", "cloned", "rev", "zip") and D:
            v = self.adaptor(st, it, D)
            if v is not None:
                return [(st, v)]
        if it in ("iter", "into_iter") and len(args) == 1 and isinstance(D[0], tuple) and D[0] and D[0][0] == "sym" and "Peek" not in nm and not self.isstr(D[0]) \
                and ("slice" in nm or "IntoIterator" in nm or "Vec" in nm) and self.slicey(bi, t):
            return [(st, self.piter(D[0]))]
        if it in ("get",) and len(args) == 2 and isinstance(D[0], tuple) and D[0][0] == "sym" and is_lin(D[1]) and "slice" in nm:
            out = []
            for s, x in self.cond(st, self.binop(st, "Lt", D[1], self.length(st, D[0]), None)):
                out.append((s, self.some(self.elem(D[0], D[1])) if x else self.NONE))
            return out
        if vt.fdef(f) in self.rec and len(args) == 2:
            a = st.copy()
            a.event("out", ("value", D[0]))
            return [(a, self.okv(self.UNIT)), self.fails(st)]
        return None

    def leafcall(self, st, f, args, D):
        kind = self.leaf.get(vt.fdef(f))
        if kind is None:
            return None
        for i, x in enumerate(args):
            if self.isstr(D[i]) or isinstance(D[i], tuple) and D[i] and D[i][0] in ("str", "pieces"):
                a = st.copy()
                self.write_pieces(a, args[1 - i] if len(args) == 2 else ("sym", "writer"), [(kind, D[i])])
                return [(a, self.okv(self.UNIT)), self.fails(st)]
        a = st.copy()
        a.event("out", (kind, ("sym", ("unknown string", self.new()))))
        return [(a, self.okv(self.UNIT)), self.fails(st)]

    def slicey(self, bi, t):
        ty = self.argtype(bi, t, 0)
        return "[" in ty or "Iter" in ty or "Vec" in ty

    def argtype(self, bi, t, i):
        o = t[2][i]
        return self.optype(o, bi) or "" if o[0] != "rt" else ""

    def isstr(self, v):
        n = self.name(v)
        return n == "string" or isinstance(n, tuple) and n and (n[0] == "f" and n[-1] == "name" or n[0] == "f" and isinstance(n[1], tuple) and n[1] and n[1][0] == "as")

    def length(self, st, v):
        n = self.name(v)
        if isinstance(n, tuple) and n and (n[0] == "f" and n[-1] == "fields" or n[0] == "fields"):
            return atom(("s", "usize", "nfields"))
        if v[0] == "sym" and self.name(v) is not None and not (isinstance(n, tuple) and n and n[0] == "fn"):
            a = atom(("s", "usize", ("len", n)))
            self.ranges.setdefault(a[2][0][0], (0, (1 << 63) - 1))
            return a
        return Interp.length(self, st, v)


FLOATS = ("finite", "infinite", "nan")


class JsEnc(Js):
    """writing one value: of a scalar type T, or of a kind"""

    def __init__(self, g, p, rec, leaf, kind, T=None, rng=None, known=None):
        Js.__init__(self, g, rng)
        self.p, self.rec, self.leaf, self.kind, self.T = p, rec, leaf, kind, T
        self.known = known or {}
        self.params = {}

    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return self.params.get(root) or ("sym", ("arg", root))
        return Interp.initial(self, root)

    def value(self):
        if self.T in INTS:
            return atom(("s", self.T, "value"))
        if self.T == "bool":
            return self.known["bool"]
        if self.T in ("f32", "f64"):
            return ("sym", "float")
        if self.T.startswith("NonZero"):
            return ("sym", "nonzero")
        return ("sym", "string")

    def who(self, v):
        """which value a shape or view belongs to"""
        n = self.name(v)
        while isinstance(n, tuple) and n and n[0] in ("*", "sym"):
            n = n[1]
        return n

    def kindof(self, who):
        if who == "peek":
            return self.kind
        if isinstance(who, tuple) and who[0] == "key":
            return self.known.get("key", ("Scalar", "String"))[0]
        return None

    def typeof(self, who):
        if who == "peek":
            return self.T
        if isinstance(who, tuple) and who[0] == "key":
            return self.known.get("key", ("Scalar", "String"))[1]
        return None

    def discr(self, st, v):
        n = v[1] if v[0] == "sym" else None
        if isinstance(n, tuple) and n and n[0] == "f":
            if n[-1] == "def":
                w = self.who(n[1])
                k = self.kindof(w[1]) if isinstance(w, tuple) and w[0] == "shapeof" else None
                if k in self.p.defs:
                    return K(self.p.defs[k])
            if n[-1] == "kind" and self.known.get("kind") in self.p.kinds:
                return K(self.p.kinds[self.known["kind"]])
        return Interp.discr(self, st, v)

    def elem(self, src, i):
        n = self.name(src)
        if n == ("items",):
            return ("sym", ("item", i))
        if n == ("entries",):
            return ("agg", "tuple", 0, (("sym", ("key", i)), ("sym", ("val", i))))
        if n == ("fields",):
            return ("agg", "tuple", 0, (("sym", ("[]", ("sym", ("fields",)), i)), ("sym", ("fpeek", i))))
        return Js.elem(self, src, i)

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        if it == "shape" and len(args) == 1 and "Peek" in nm:
            return [(st, ("sym", ("shapeof", self.who(D[0]))))]
        if it == "is_type":
            w = self.who(D[0])
            if isinstance(w, tuple) and w[0] == "shapeof":
                return [(st, tn(targ(self, bi, f)) == self.typeof(w[1]))]
        if it == "get" and "Peek::" in nm + "::" and len(args) == 1:
            w = self.who(D[0])
            if tn(targ(self, bi, f)) == self.typeof(w):
                return [(st, self.okv(("refv", self.value() if w == "peek" else ("sym", ("f", ("sym", w), 0, "name")))))]
            return [(st, self.errv(("sym", "another type")))]
        if it in ("is_finite", "is_nan", "is_infinite") and D[0] == ("sym", "float"):
            return [(st, self.known["float"] == {"is_finite": "finite", "is_nan": "nan", "is_infinite": "infinite"}[it])]
        if it == "get" and D[0] == ("sym", "nonzero"):
            return [(st, D[0])]
        m = re.match(r"into_(struct|list|map|enum|option|smart_pointer)$", it)
        if m and len(args) == 1 and "Peek" in nm:
            if self.who(D[0]) == "peek" and self.kind == {"smart_pointer": "SmartPointer"}.get(m.group(1), m.group(1).capitalize()):
                return [(st, self.okv(("sym", ("view",))))]
            return [(st, self.errv(("sym", "another kind")))]
        w = self.who(D[0]) if D and isinstance(D[0], tuple) else None
        if w == ("view",):
            if it in ("fields", "iter", "into_iter") and len(args) == 1:
                src = {"Struct": "fields", "List": "items", "Map": "entries", "Enum": "fields"}.get(self.kind)
                if src:
                    return [(st, self.piter(("sym", (src,))))]
            if it in ("field_count", "len", "is_empty") and len(args) == 1:
                src = {"Struct": "fields", "List": "items", "Map": "entries", "Enum": "fields"}.get(self.kind)
                if src:
                    n = self.length(st, ("sym", (src,)))
                    return [(st, n if it != "is_empty" else self.binop(st, "Eq", n, K(0), "usize"))]
            if it in ("field", "get") and len(args) == 2 and is_lin(D[1]) and self.kind in ("Struct", "Enum", "List"):
                src, e = ("items", "item") if self.kind == "List" else ("fields", "fpeek")
                out = []
                for s, x in self.cond(st, self.binop(st, "Lt", D[1], self.length(st, ("sym", (src,))), None)):
                    out.append((s, self.some(("sym", (e, D[1]))) if x else self.NONE))
                return out
            if it in ("is_none", "is_some") and self.kind == "Option":
                return [(st, self.known["some"] == (it == "is_some"))]
            if it == "value" and self.kind == "Option":
                return [(st, self.some(("sym", ("payload",))) if self.known["some"] else self.NONE)]
            if it == "active_variant":
                return [(st, ("sym", ("variant",)))]
            if it == "variant_name_active":
                return [(st, ("sym", ("f", ("sym", ("*", ("variant",))), 0, "name")))]
        if it == "to_string" and isinstance(w, tuple) and w and w[0] == "key":
            return [(st, ("pieces", (("disp", "new_display", D[0], (None, None, None)),)))]
        if it in ("eq", "ne") and len(D) == 2 and any(isinstance(x, tuple) and x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "f" and x[1][-1] == "kind" for x in D):
            ks = [num(self.discr(st, x)) if is_lin(self.discr(st, x)) else None for x in D]
            if None not in ks:
                return [(st, (ks[0] == ks[1]) == (it == "eq"))]
        return Js.call(self, st, bi, f, args, t, dt)


def tn(t):
    """a type's name, without what doesn't matter here"""
    t = re.sub(r"'[a-z_]+ ?", "", t)
    t = re.sub(r"<, ", "<", t)
    return re.sub(r"(\w+::)+", "", t)


SCALARS = ["bool", "String", "&str", "Cow<str>"] + [s + b for s in "ui" for b in ("8", "16", "32", "64", "size")] \
    + ["NonZero<%s%s>" % (s, b) for s in "ui" for b in ("8", "16", "32", "64", "size")] + ["f32", "f64"]


# ------------------------------------------------------------------------------------------------ the grammar

def tokens(events):
    out = []
    for e in events:
        if e[0] != "out":
            continue
        x = e[1]
        if x[0] == "lit":
            out += [("c", c) for c in x[1]]
        else:
            out.append(x)
    # a quoted run of characters is a string
    res, i = [], 0
    while i < len(out):
        if out[i] == ("c", '"'):
            if i + 2 < len(out) and out[i + 1][0] == "chars" and out[i + 2] == ("c", '"'):
                res.append(("string", out[i + 1][1]))
                i += 3
                continue
            j = i + 1
            s = ""
            while j < len(out) and out[j][0] == "c" and out[j][1] not in '"\\':
                s += out[j][1]
                j += 1
            if j < len(out) and out[j] == ("c", '"'):
                res.append(("string", ("str", s)))
                i = j + 1
                continue
        if out[i][0] == "c" and out[i][1] in " \n\t\r":
            i += 1
            continue
        res.append(out[i])
        i += 1
    return res


class Bad(Exception):
    pass


def value(ts, i):
    if i >= len(ts):
        raise Bad("a value is missing at the end")
    x = ts[i]
    if x == ("c", "{") or x == ("c", "["):
        end = "}" if x[1] == "{" else "]"
        items = []
        i += 1
        if i < len(ts) and ts[i] == ("c", end):
            return ("obj" if end == "}" else "arr", items), i + 1
        while True:
            if end == "}":
                if i >= len(ts) or ts[i][0] not in ("string",):
                    raise Bad("a key must be a string, and %s is written" % tok(ts, i))
                k = ts[i]
                if i + 1 >= len(ts) or ts[i + 1] != ("c", ":"):
                    raise Bad("no colon after a key but %s" % tok(ts, i + 1))
                v, i = value(ts, i + 2)
                items.append((k, v))
            else:
                v, i = value(ts, i)
                items.append(v)
            if i < len(ts) and ts[i] == ("c", ","):
                i += 1
                continue
            if i < len(ts) and ts[i] == ("c", end):
                return ("obj" if end == "}" else "arr", items), i + 1
            raise Bad("neither a comma nor the closing bracket but %s" % tok(ts, i))
    if x[0] == "c":
        w = ""
        while i < len(ts) and ts[i][0] == "c" and ts[i][1].isalnum():
            w += ts[i][1]
            i += 1
        if w in ("null", "true", "false") or w.isdigit() and str(int(w)) == w:
            return ("word", w), i
        raise Bad("%s is no JSON value" % (w or tok(ts, i)))
    return x, i + 1


def tok(ts, i):
    if i >= len(ts):
        return "nothing"
    return repr(ts[i][1]) if ts[i][0] == "c" else "a " + ts[i][0]


def whole(ts):
    v, i = value(ts, 0)
    if i != len(ts):
        raise Bad("more is written after the value: %s" % tok(ts, i))
    return v


def parts(it, outs):
    """every way of writing: [(kind, tokens, state, first-turn state or None, block)]; 'none' and 'one' are what is
    written without and with one turn of a loop that writes, 'more' with one more turn (any later one)"""
    rets = [(v, st, bi) for k, v, st, bi in outs if k == "ret" and okret(v) != 0]
    res = []
    done = {id(st): unbuffer(st.events) for _, st, _ in rets}
    direct = not done or any(x is None for x in done.values())
    evs = {id(st): st.events if direct else done[id(st)] for _, st, _ in rets}
    for v, st, bi in rets:
        res.append(("whole", evs[id(st)], st, None, bi))
    turns = [(h, st, n) for k, h, st, n in outs if k == "turn" for n in [dict(st.loops).get(h, 1)]]
    for h, st, n in turns:
        if n < 2:
            continue
        ev = st.events if direct else tuple(("out", e[2]) if e[0] == "buf" else e for e in st.events)
        i = max(j for j, e in enumerate(ev) if e[0] == "enter" and e[1] == h)
        turn = [e for e in ev[i + 1:]]
        if not any(e[0] == "out" for e in turn):
            continue
        # the rest of some path that left the loop from the same place
        for v, s2, b2 in rets:
            e2 = evs[id(s2)]
            js = [j for j, e in enumerate(e2) if e == ev[i]]
            if js and e2[:js[-1]] == ev[:i]:
                res.append(("more", ev[:i + 1] + tuple(turn) + e2[js[-1] + 1:], st, (h, ev[i], (i + 1, i + 1 + len(turn))), b2))
                break
    return res


def unbuffer(ev):
    """a way of writing that first goes to a buffer, which is then written: as if it had been written at once; None if
    it's no such way"""
    bufs = {e[1] for e in ev if e[0] == "buf"}
    if len(bufs) != 1:
        return None
    last = max(j for j, e in enumerate(ev) if e[0] == "buf")
    out = [(j, e[1]) for j, e in enumerate(ev) if e[0] == "out"]
    if any(j < last for j, _ in out):
        return None
    if out:
        ent = [j for j, e in enumerate(ev) if e[0] == "enter"]
        every = [(j, e[2]) for j, e in enumerate(ev) if e[0] == "buf"]
        if glue([x for _, x in out]) != glue(([("more",)] if ent else []) + [x for j, x in every if not ent or j > ent[-1]]):
            return None
    return tuple(("out", e[2]) if e[0] == "buf" else e for e in ev if e[0] != "out")


def glue(ps):
    out = []
    for x in ps:
        if x[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


LOSSY = ("rev", "skip", "take", "step_by", "filter", "skip_while", "take_while", "filter_map", "map_while", "cycle", "chain", "last", "nth")


def lossy(g):
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        f = g.fnval(t) if t[0] == "call" else None
        if isinstance(f, dict) and item_of(f) in LOSSY:
            return item_of(f)
    return None


def opaque(n):
    s = repr(n)
    return "'call'" in s or "'loop'" in s or "'?'" in s or "'cast'" in s or "unknown" in s


DISPATCH = ("affinity", "scalar_type", "try_from_shape", "vtable", "type_id", "'id'")


def foreign(st):
    """a path that depends on something about the shape that isn't modelled"""
    return any(any(d in repr(k) for d in DISPATCH) for k in st.conds)


def strip(n):
    while isinstance(n, tuple) and n and (n[0] in ("*", "sym", "refv")):
        n = n[1]
    return n


def desc(n):
    """the index of the field a name or attribute list belongs to"""
    n = strip(n)
    if isinstance(n, tuple) and n and n[0] == "f":
        x = strip(n[1])
        if isinstance(x, tuple) and x and x[0] == "[]":
            return x[2]
    return None


class Judge:
    def __init__(self, it, p):
        self.it, self.p = it, p

    def nows(self, st):
        out = [K(0)]
        for e in st.events:
            if e[0] == "enter":
                out += [now for _, _, first, now in e[2]]
        return out

    def named(self, v, i, st):
        """why a string is not the name of field i in JSON"""
        n = strip(self.it.name(v))
        if isinstance(n, tuple) and n and n[0] == "f" and n[-1] == "name":
            if desc(n) != i:
                return "a field's value is written under the name of another" if desc(n) is not None else "what is written as its name is not a field's name"
            at = None
            for f in st.facts:
                for a, k in f[2]:
                    if a[0] == "s" and isinstance(a[2], tuple) and a[2][0] == "len" and isinstance(a[2][1], tuple) and a[2][1][0] == "f" and a[2][1][-1] == "attributes" and desc(a[2][1]) == i:
                        at = a
            if at is None:
                return "a field is written under its Rust name without a look at its attributes"
            for k, x in st.conds.items():
                if isinstance(k, tuple) and k[0] == "discr" and x == self.p.attrs.get("Rename"):
                    e = strip(k[1])
                    if isinstance(e, tuple) and e[0] == "[]" and desc(e[1]) == i:
                        return "a renamed field is written under its Rust name"
            if not any(self.it.holds(st, add(c, atom(at), -1)) for c in self.nows(st)):
                return "a field is written under its Rust name before all of its attributes were looked at"
            return None
        if isinstance(n, tuple) and n and n[0] == "f" and isinstance(strip(n[1]), tuple) and strip(n[1])[0] == "as":
            a = strip(n[1])
            e = strip(a[1])
            if a[2] != "Rename":
                return "a field is written under the text of another attribute (%s)" % a[2]
            if isinstance(e, tuple) and e[0] == "[]" and desc(e[1]) == i:
                return None
            return "a field is written under the new name of another"
        if n == "string" or isinstance(n, tuple) and n and opaque(n):
            raise Undecided("the name of a field is %s" % (repr(n)[:120],))
        return "what is written as a field's name is not its name"

    def ids(self, vals, tag):
        """the index of each value written"""
        out = []
        for v in vals:
            if v[0] != "value":
                return None, "what is written for it is %s and not its value" % describe(v)
            n = strip(self.it.name(v[1]))
            if not (isinstance(n, tuple) and n and n[0] == tag):
                if isinstance(n, tuple) and opaque(n):
                    w = lossy(self.it.g)
                    if w:
                        return None, "elements are taken through %s()" % w
                    raise Undecided("the value written is %s" % (repr(n)[:120],))
                return None, "the value written is not its own"
            out.append(n[1])
        return out, None

    def order(self, idx, n, how, st, more):
        """why the indices are not 0, 1, ... n-1"""
        it = self.it
        if idx and idx[0] != K(0):
            return "the first one written is not the first"
        if how == "whole":
            if len(idx) > 1:
                # written one by one: 0, 1, 2, ...
                if [num(x) for x in idx] != list(range(len(idx))):
                    return "they are written out of order"
            ends = [K(len(idx))]
            for e in st.events:
                if e[0] == "enter" and idx:
                    ends += [now for _, _, first, now in e[2] if first == K(1)]
            if not any(it.holds(st, add(c, n, -1)) for c in ends):
                return "writing ends although some are left"
            return None
        h, e, _ = more
        if len(idx) != 2:
            return "%d are written in two turns" % len(idx)
        for root, path, first, now in e[2]:
            if now == idx[1] and first == K(1) and it.at_path(st, root, path) == add(now, K(1)):
                return None
        return "a later one written is not the next"


def describe(v):
    if v[0] == "word":
        return v[1]
    return {"string": "a string", "obj": "an object", "arr": "an array", "disp": "a formatted text", "value": "a value"}.get(v[0], "a " + v[0])


def members(j, tree, tag, name, how, st, more):
    """why an object isn't the given elements, each under its name"""
    if tree[0] != "obj":
        return "it is written as %s" % describe(tree)
    idx, why = j.ids([v for _, v in tree[1]], tag)
    if why:
        return why
    for (k, _), i in zip(tree[1], idx):
        why = name(k[1], i, st)
        if why:
            return why
    return j.order(idx, j.n, how, st, more)


def array(j, tree, tag, how, st, more):
    if tree[0] != "arr":
        return "it is written as %s" % describe(tree)
    idx, why = j.ids(tree[1], tag)
    return why or j.order(idx, j.n, how, st, more)


def scalar(T, known, tree):
    if T == "bool":
        return None if tree == ("word", "true" if known["bool"] else "false") else "%s is written as %s" % (known["bool"], describe(tree))
    if T in ("String", "&str", "Cow<str>"):
        return None if tree == ("string", ("sym", "string")) else "a string is written as %s" % ("another string" if tree[0] == "string" else describe(tree))
    if T in ("f32", "f64") and known["float"] != "finite":
        return None if tree == ("word", "null") else "a float that is not a number JSON has is written as %s" % describe(tree)
    want = ("sym", "float") if T[0] == "f" else ("sym", "nonzero") if T.startswith("Non") else atom(("s", T, "value"))
    if tree[0] != "disp":
        return "a %s is written as %s" % (T, describe(tree))
    if tree[2] != want:
        x = tree[2]
        if isinstance(x, tuple) and x[:2] == ("sym", x[1]) and isinstance(x[1], tuple) and x[1][:2] == ("cast", "IntToFloat") and x[1][2] == want:
            if INTS.get(T, INTS["u64"])[1] > (1 << 53 if x[1][3] == "f64" else 1 << 24):
                return "a %s is written as a floating point number, which has not all of them" % T
            return None
        if isinstance(tree[2], tuple) and not is_lin(tree[2]) and opaque(tree[2]) and not T[0] == "f":
            raise Undecided("the text written for a %s is that of %s" % (T, repr(tree[2])[:100]))
        return "what is written for a %s is not its value" % T
    if tree[1] not in ("new_display", "new_debug") + (("new_lower_exp", "new_upper_exp") if T[0] == "f" else ()) or tree[3] != (None, None, None):
        return "a %s is written in a format that is not a JSON number or that alters it (%s %s)" % (T, tree[1], tree[3])
    return None


def recursive(p, module, first):
    """functions of the crate that call themselves through others and are called from outside: whole-value writers"""
    fs = {f.id: f for f in p.fns.values() if f.crate.name == CR and f.body and module(f.id) and "{closure" not in f.id}
    calls = {}
    for i, f in fs.items():
        calls[i] = set()
        for q in [f] + [c for c in p.fns.values() if c.crate.name == CR and c.body and c.id.startswith(i + "::{closure")]:
            for b in q.body["blocks"]:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("fn"), dict):
                    calls[i].add(vt.fdef(t[1][1]["fn"]))

    def reaches(a, goal):
        seen, todo = set(), [a]
        while todo:
            for c in calls.get(todo.pop(), ()):
                if c == goal:
                    return True
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return False
    out = []
    for i, f in fs.items():
        outside = [j for j in fs if i in calls[j] and not reaches(i, j)]
        if reaches(i, i) and outside and first in f.crate.ts(f.body["locals"][1]):
            out.append(f)
    return out, fs, calls


def leaves(p, fs, calls):
    """functions that write a string character by character"""
    cand = {}
    for i, f in fs.items():
        tys = [f.crate.ts(t) for t in f.body["locals"][1:1 + f.body["argc"]]]
        if any(re.sub(r"'\w+ ", "", t) in ("&str", "str") for t in tys) and any(t.startswith("&mut") or "Write" in t or "W" == t for t in tys) and "Result" in f.crate.ts(f.body["locals"][0]):
            cand[i] = f
    return {i: f for i, f in cand.items() if not any(c in cand for c in calls[i])}


# ------------------------------------------------------------------------------------------------ strings

def ctl(lo, hi):
    return [(0, 0x1f), (0x7f, 0x9f)]


CLASSES = {"is_control": [(0, 0x1f), (0x7f, 0x9f)], "is_ascii_control": [(0, 0x1f), (0x7f, 0x7f)], "is_ascii": [(0, 0x7f)],
           "is_ascii_digit": [(0x30, 0x39)], "is_ascii_graphic": [(0x21, 0x7e)],
           "is_ascii_alphabetic": [(0x41, 0x5a), (0x61, 0x7a)], "is_ascii_alphanumeric": [(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)],
           "is_ascii_punctuation": [(0x21, 0x2f), (0x3a, 0x40), (0x5b, 0x60), (0x7b, 0x7e)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
           "is_ascii_uppercase": [(0x41, 0x5a)], "is_ascii_lowercase": [(0x61, 0x7a)], "is_ascii_hexdigit": [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)]}
SHORTS = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 0x22: '\\"', 0x5c: "\\\\", 0x2f: "\\/"}


class JsStr(Js):
    """writing a string whose characters all lie in one class"""

    def __init__(self, g, cls, params):
        Js.__init__(self, g)
        self.cls, self.params = cls, params
        self.what = None

    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return self.params.get(root) or ("sym", ("arg", root))
        return Interp.initial(self, root)

    def arng(self, a):
        if a[0] == "s" and isinstance(a[2], tuple) and a[2] and a[2][0] == "chr":
            return self.cls
        return Interp.arng(self, a)

    def elem(self, src, i):
        n = self.name(src)
        if isinstance(n, tuple) and n[0] in ("chars", "bytes"):
            self.what = n[0]
            c = atom(("s", "char" if n[0] == "chars" else "u8", ("chr", i)))
            return ("agg", "tuple", 0, (("sym", ("pos", i)), c)) if len(n) > 2 else c
        return Js.elem(self, src, i)

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        if it in ("chars", "bytes", "char_indices") and D and self.name(D[0]) == "string":
            return [(st, self.piter(("sym", ("chars" if it != "bytes" else "bytes", "string") + (("pos",) if it == "char_indices" else ()))))]
        if it in ("iter", "into_iter") and D and self.name(D[0]) == "string":
            return [(st, self.piter(("sym", ("bytes", "string"))))]
        if it in CLASSES and D and is_lin(D[0]):
            lo, hi = self.rng(D[0])
            if num(D[0]) is None and len(D[0][2]) == 1:
                for a, b in CLASSES[it]:
                    if a <= lo and hi <= b:
                        return [(st, True)]
                if all(hi < a or b < lo for a, b in CLASSES[it]):
                    return [(st, False)]
        if it == "len_utf8" or it == "len_utf16":
            return [(st, self.opaque((it, self.new()), "usize"))]
        return Js.call(self, st, bi, f, args, t, dt)


def escape(it, ps, c, lo, hi, bytewise):
    """why the pieces written for a character in [lo, hi] are not that character in a JSON string"""
    if any(x[0] == "raw" or x[0] == "disp" and isinstance(x[2], tuple) and not is_lin(x[2]) for x in ps):
        raise Undecided("a piece of a string is %s" % (repr(ps)[:120],))
    flat = []
    for x in ps:
        if x[0] == "lit":
            flat += [("c", y) for y in x[1]]
        else:
            flat.append(x)
    if not flat:
        return "is left out"
    raw = None
    if len(flat) == 1:
        x = flat[0]
        if x[0] == "c":
            raw = lo == hi == ord(x[1])
        elif x[0] in ("char", "byte"):
            raw = x[1] == c
        elif x[0] == "disp":
            raw = x[2] == c and x[1] == "new_display" and x[3] == (None, None, None) and not bytewise
        if not raw:
            return "is written as something else (%s)" % repr(x)[:80]
        if lo < 0x20 or lo <= 0x22 <= hi or lo <= 0x5c <= hi:
            return "is written as it is"
        return None
    s = "".join(x[1] for x in flat if x[0] == "c")
    if all(x[0] == "c" for x in flat):
        if lo == hi and (SHORTS.get(lo) == s or lo <= 0xffff and s.lower() == "\\u%04x" % lo):
            return None
        return "is written as %s" % s
    if len(flat) == 3 and s == "\\u" and flat[2][0] == "disp" and hi <= 0xffff and not bytewise or len(flat) == 3 and s == "\\u" and flat[2][0] == "disp" and bytewise and hi < 0x80:
        d = flat[2]
        flags, width, prec = d[3]
        if d[1] in ("new_lower_hex", "new_upper_hex") and d[2] == c and width == 4 and prec is None and flags is not None and flags >> 24 & 1 and not flags >> 21 & 7:
            return None
        return "is written as \\u and not its four hexadecimal digits"
    pre = s.rstrip("0") if s.startswith("\\u0") else s
    if len(flat) >= 3 and flat[-1][0] == "disp" and re.match(r"\\u0*$", s) and hi <= 0xffff:
        d = flat[-1]
        flags, width, prec = d[3]
        z = len(s) - 2
        if d[1] in ("new_lower_hex", "new_upper_hex") and d[2] == c and prec is None and not (flags or 0) >> 21 & 7:
            if width == 4 - z and (flags or 0) >> 24 & 1 and hi < 16 ** (4 - z):
                return None
            if not width and 16 ** (3 - z) <= lo and hi < 16 ** (4 - z):
                return None
        return "is written as %s and not its four hexadecimal digits" % pre
    if hi > 0xffff and s.count("\\u") == 1 and len(flat) == 3 and flat[2][0] == "disp":
        return "is written as \\u and more than four digits"
    if hi > 0xffff and s.count("\\u") >= 1:
        raise Undecided("a character beyond U+FFFF is escaped")
    return "is written as %s" % repr(flat)[:80]


def char_cuts(g):
    pts = {0, 8, 9, 10, 11, 12, 13, 14, 0x20, 0x21, 0x22, 0x23, 0x2f, 0x30, 0x5c, 0x5d, 0x7f, 0x80, 0xa0, 0x100, 0x800, 0x2028, 0x202a, 0xd800, 0xe000, 0x10000}
    for v in CLASSES.values():
        for a, b in v:
            pts |= {a, b + 1}
    from .c_msgpack import consts
    c = set()
    for bi in g.reachable():
        b = g.blocks[bi]
        for s in b["s"]:
            if s[0] == "=":
                consts(s[2], c)
        t = b["t"]
        if t[0] == "switch":
            c |= {int(w) for w, _ in t[2]}
        if t[0] == "call":
            consts(t[2], c)
    for x in c:
        pts |= {x, x + 1}
    return sorted(x for x in pts if 0 <= x <= 0x10ffff) + [0x110000]


def leafkind(p, f, r=None, at=None):
    """"string" when the function writes a whole quoted string, "chars" when just what is between the quotes; with r,
    every character class is judged"""
    g = flow.Graph(p, f, policy, cap=20000)
    params = {}
    for l in g.argl:
        ty = g.tyname(g.locals[l][0], g.locals[l][1], 0)
        params[l] = ("sym", "string") if "str" in ty else ("sym", "writer")
    cs = char_cuts(g)
    kind = None
    n = 0
    for lo, hi in [(a, b - 1) for a, b in zip(cs, cs[1:])]:
        if 0xd800 <= lo <= 0xdfff:
            continue
        it = JsStr(g, (lo, hi), params)
        outs = it.run()
        if it.what == "bytes":
            if hi > 0xff:
                continue
        pt = parts(it, outs)
        for how, ev, st, more, bi in pt:
            # what is written before the first turn, after the last
            firsts = [j for j, e in enumerate(ev) if e[0] == "first"]
            if not firsts:
                raise Undecided("no loop over the characters")
            pre = [e[1] for e in ev[:firsts[0]] if e[0] == "out"]
            a = "".join(x[1] for x in pre if x[0] == "lit")
            k = "string" if a == '"' and len(pre) else "chars" if not pre else None
            if k is None or kind not in (None, k):
                if r is not None:
                    r.bad("string:opening", "a string begins with %s" % (repr(pre)[:80]), at)
                return None
            kind = k
            ent = [j for j, e in enumerate(ev) if e[0] == "enter"]
            if how == "whole":
                if not ent:
                    post = [e[1] for e in ev[firsts[0]:] if e[0] == "out"]
                    turn = None
                else:
                    turn = [e[1] for e in ev[firsts[0]:ent[0]] if e[0] == "out"]
                    post = [e[1] for e in ev[ent[-1]:] if e[0] == "out"]
                    c = K(0)
                    if r is not None:
                        done = any(it.holds(st, add(now, it.length(st, ("sym", (it.what, "string"))), -1)) for j in ent for _, _, first, now in ev[j][2] if first == K(1))
                        r.check(done, "string:all", "a string's writing ends although characters are left", at)
                b = "".join(x[1] for x in post if x[0] == "lit")
                if r is not None:
                    r.check(b == ('"' if kind == "string" else "") and all(x[0] == "lit" for x in post), "string:closing", "a string ends with %s" % repr(post)[:80], at)
            else:
                j, end = more[2]
                turn = [e[1] for e in ev[j:end] if e[0] == "out"]
                nows = [(root, path, now) for root, path, first, now in more[1][2] if first == K(1)]
                c = None
                for root, path, now in nows:
                    if it.at_path(st, root, path) == add(now, K(1)) and repr(("chr", now)) in repr(turn) or len(nows) == 1:
                        c = now
                if c is None and nows:
                    c = nows[0][2]
            if turn is None or r is None:
                continue
            ch = atom(("s", "char" if it.what == "chars" else "u8", ("chr", c)))
            n += 1
            why = escape(it, turn, ch, lo, hi, it.what == "bytes")
            r.check(why is None, "string:%x" % lo, "a character in U+%04X..U+%04X %s" % (lo, hi, why), at, "U+%04X..U+%04X: %s" % (lo, hi, repr(turn)[:60]))
        for k, v, st, bi in outs:
            if r is None:
                continue
            if k == "panic":
                r.bad("string:panic:%x" % lo, "writing a character in U+%04X..U+%04X panics" % (lo, hi), g.where(bi))
            if k == "ret" and okret(v) == 0 and "io" not in st.conds:
                r.bad("string:refused:%x" % lo, "a string with a character in U+%04X..U+%04X is refused" % (lo, hi), g.where(bi))
    if r is not None:
        r.count("character classes", len(cs) - 1)
        r.count("escapes judged", n)
    return kind


# ------------------------------------------------------------------------------------------------ the checks

def setup(fx):
    p = program(fx)
    rec, fs, calls = recursive(p, lambda i: "::serialize::" in i, "Peek")
    return p, rec, fs, calls


def c25(fx, r):
    """strings in JSON: what is written is the string"""
    p, rec, fs, calls = setup(fx)
    r.rule("characters are cut into classes where the code and JSON distinguish them; on every path of every class a turn of the loop over the "
           "characters writes the character itself (if JSON allows it as it is) or an escape sequence that stands for it")
    lv = leaves(p, fs, calls)
    if not r.check(lv, "strings:exists", "no function that writes a string character by character is left to decide"):
        return
    for i, f in sorted(lv.items()):
        r.count("string writers")
        try:
            leafkind(p, f, r, i)
        except Undecided as e:
            r.notes.append("undecided: %s: %s" % (i, e))
    from . import c_jsonread
    c_jsonread.strings(fx, p, r)


def c24(fx, r):
    """what the writer writes is one JSON value that stands for the value it was given"""
    p, rec, fs, calls = setup(fx)
    r.rule("for every kind of value the writer takes, every path that succeeds writes tokens that parse as exactly one JSON value, made of the value's own parts in "
           "order, each under its own name; loops are taken as their first turn and any later turn")
    if not r.check(len(rec) >= 1, "serialize:exists", "no function that writes whole values is left to decide"):
        return
    leaf = {}
    for i, f in leaves(p, fs, calls).items():
        try:
            leaf[i] = leafkind(p, f)
        except Undecided as e:
            r.notes.append("undecided: %s: %s" % (i, e))
            leaf[i] = "string"
    ids = {f.id for f in rec}
    for f in rec:
        g = flow.Graph(p, f, lambda c, x: policy(c, x) and c.id not in ids and c.id not in leaf, cap=30000)

        def go(what, key, kind, T, rng, known, judge, n=None, refuse=False):
            it = JsEnc(g, p, ids, leaf, kind, T, rng, known)
            for l in g.argl:
                ty = g.tyname(g.locals[l][0], g.locals[l][1], 0)
                it.params[l] = ("sym", "peek") if "Peek" in ty else ("sym", "writer")
            try:
                outs = it.run()
                j = Judge(it, p)
                j.n = n
                done = 0
                for k, v, st, bi in outs:
                    if foreign(st):
                        r.notes.append("undecided: %s: a path depends on something about the shape that isn't followed" % what)
                        continue
                    if k == "panic":
                        r.bad(key + ":panic", "writing %s panics (%s)" % (what, v), g.where(bi))
                    if k == "ret" and okret(v) == 0 and "io" not in st.conds:
                        r.bad(key + ":refused", "%s is refused" % what, g.where(bi))
                for how, ev, st, more, bi in parts(it, outs):
                    if foreign(st):
                        continue
                    try:
                        tree = whole(tokens(ev))
                        why = judge(j, tree, how, st, more)
                    except Bad as e:
                        why = str(e)
                    except Undecided as e:
                        r.notes.append("undecided: %s: %s" % (what, e))
                        continue
                    done += 1
                    r.check(why is None, key, "%s: %s" % (what, why), g.where(bi), "%s (%s)" % (what, "a later turn" if how == "more" else "written whole"))
                if not done and not r.notes:
                    r.bad(key + ":written", "%s is never written" % what, f.id)
            except Undecided as e:
                r.notes.append("undecided: %s: %s" % (what, e))

        for T in SCALARS:
            r.count("scalar types")
            for known in ([{"bool": b} for b in (False, True)] if T == "bool" else [{"float": c} for c in FLOATS] if T[0] == "f" else [{}]):
                w = next(iter(known.values()), None)
                go("a %s%s" % (T, "" if w is None else " (%s)" % w), "scalar:%s%s" % (T, "" if w is None else ":%s" % w), "Scalar", T, {}, known,
                   lambda j, tree, how, st, more: scalar(T, known, tree))
        NF = atom(("s", "usize", "nfields"))
        nf = ("s", "usize", "nfields")
        BIG = (1 << 62)
        r.count("kinds", 6)
        go("a struct", "struct", "Struct", None, {nf: (0, BIG)}, {}, lambda j, tree, how, st, more: members(j, tree, "fpeek", j.named, how, st, more), NF)
        NI = atom(("s", "usize", ("len", ("items",))))
        go("a list", "list", "List", None, {}, {}, lambda j, tree, how, st, more: array(j, tree, "item", how, st, more), NI)
        NE = atom(("s", "usize", ("len", ("entries",))))
        for K_ in ("String", "u32", "i64", "&str", "bool", "char"):
            def mapkey(v, i, st):
                x = v
                if x == ("sym", ("f", ("sym", ("key", i)), 0, "name")):
                    return None
                if x[0] == "pieces" and len(x[1]) == 1 and x[1][0][0] == "disp" and x[1][0][1] == "new_display" and x[1][0][3] == (None, None, None):
                    n = strip(x[1][0][2])
                    if n == ("key", i) or n == ("f", ("sym", ("key", i)), 0, "name"):
                        return None
                n = repr(x)
                if "'key'" in n and not opaque(x):
                    return "a value is written under the key of another, or a key in another format"
                if opaque(x):
                    raise Undecided("a key is %s" % n[:100])
                return "what is written as a key is not the key"
            go("a map with keys of type " + K_, "map:" + K_, "Map", None, {}, {"key": ("Scalar", K_)},
               lambda j, tree, how, st, more: members(j, tree, "val", mapkey, how, st, more), NE)
        for b in (False, True):
            def opt(j, tree, how, st, more):
                if not b:
                    return None if tree == ("word", "null") else "None is written as " + describe(tree)
                if tree[0] == "value" and strip(j.it.name(tree[1])) == ("payload",):
                    return None
                return "Some is not written as its payload but as " + describe(tree)
            go("an option that is %s" % ("Some" if b else "None"), "option:%s" % b, "Option", None, {}, {"some": b}, opt)
        for kind, lo, hi in (("Unit", 0, 0), ("Tuple", 0, 0), ("Tuple", 1, 1), ("Tuple", 2, BIG), ("TupleStruct", 1, 1), ("TupleStruct", 2, BIG), ("Struct", 1, 1), ("Struct", 2, BIG)):
            def enum(j, tree, how, st, more):
                def vname(k):
                    n = strip(j.it.name(k[1]))
                    if isinstance(n, tuple) and n[0] == "f" and n[-1] == "name" and strip(n[1]) == ("variant",):
                        return None
                    if isinstance(n, tuple) and opaque(n):
                        raise Undecided("the name of the variant is %s" % repr(n)[:100])
                    return "it is not written under the name of its variant"
                if hi == 0:
                    if tree[0] != "string":
                        return "it is not written as the name of its variant but as " + describe(tree)
                    return vname(tree)
                if tree[0] != "obj" or len(tree[1]) != 1:
                    return "it is written as %s and not as an object with one member" % describe(tree)
                k, v = tree[1][0]
                why = vname(k)
                if why:
                    return why
                if hi == 1 and kind != "Struct":
                    if v[0] == "value":
                        idx, why = j.ids([v], "fpeek")
                        return why or (None if idx[0] == K(0) else "another field is written")
                    if v[0] == "arr" and len(v[1]) == 1:
                        return "its only field is written in an array"
                    return "its only field is written as " + describe(v)
                if kind == "Struct":
                    return members(j, v, "fpeek", j.named, how, st, more)
                return array(j, v, "fpeek", how, st, more)
            what = "a variant of kind %s with %s" % (kind, {0: "no fields", 1: "one field"}.get(hi, "several fields"))
            go(what, "enum:%s:%s" % (kind, min(hi, 2)), "Enum", None, {nf: (lo, hi)}, {"kind": kind}, enum, NF)
    # the public functions
    for f in fs.values():
        if f.id in ids:
            continue
        tys = [f.crate.ts(t) for t in f.body["locals"][1:1 + f.body["argc"]]]
        ret = f.crate.ts(f.body["locals"][0])
        if not any(c in ids for c in calls[f.id]) or f.id in leaf:
            continue
        if any(i != f.id and f.id in calls[i] for i in fs if i not in ids) or any(f.id in calls[i] for i in ids):
            continue
        r.count("entry points")
        entry(p, f, ids, leaf, r, ret)
    r.floor("scalar types", 24)
    r.floor("entry points", 2)


class Entry(Js):
    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return ("sym", ("arg", self.g.argl.index(root)))
        return Interp.initial(self, root)

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        if it == "new" and "Peek" in nm:
            return [(st, ("sym", ("peekof", D[0])))]
        if vt.fdef(f) in self.rec:
            a = st.copy()
            w = args[1]
            v = self.deref(a, w)
            if isinstance(v, tuple) and v and v[0] == "pieces":
                self.write_pieces(a, w, [("whole", D[0])])
                return [(a, self.okv(self.UNIT))]
            a.event("out", ("whole", D[0], v))
            return [(a, ("sym", "written"))]
        if it in ("from_utf8", "from_utf8_unchecked", "from_utf8_lossy") and D and isinstance(D[0], tuple) and D[0][0] == "pieces":
            return [(st, self.okv(D[0]) if it == "from_utf8" else D[0])]
        return Js.call(self, st, bi, f, args, t, dt)


def entry(p, f, ids, leaf, r, ret):
    g = flow.Graph(p, f, lambda c, x: policy(c, x) and c.id not in ids and c.id not in leaf, cap=20000)
    it = Entry(g)
    it.rec = ids
    try:
        outs = it.run()
    except Undecided as e:
        r.notes.append("undecided: %s: %s" % (f.id, e))
        return
    args = [("sym", ("arg", i)) for i in range(len(g.argl))]
    for k, v, st, bi in outs:
        if k == "panic":
            r.bad(f.id + ":panic", "%s can panic (%s)" % (f.id, v), g.where(bi))
        if k != "ret":
            continue
        out = [e[1] for e in st.events if e[0] == "out"]

        def isarg(x):
            n = it.name(x)
            while isinstance(n, tuple) and n and n[0] in ("peekof", "*", "sym"):
                n = it.name(n[1])
            return n == ("arg", 0)
        v = it.deref(st, v)
        if isinstance(v, tuple) and v and v[0] == "pieces":
            ok = len(v[1]) == 1 and v[1][0][0] == "whole" and isarg(v[1][0][1]) and not out
            why = "it doesn't return just what was written for its argument"
        elif v == ("sym", "written"):
            ok = len(out) == 1 and out[0][0] == "whole" and isarg(out[0][1]) and strip(it.name(out[0][2])) == ("arg", 1)
            why = "it doesn't write just its argument to its writer"
        elif len(out) == 1 and out[0][0] == "whole" and (okret(v) is not None):
            n = strip(it.name(out[0][2]))
            ok = isarg(out[0][1]) and n == ("arg", 1)
            why = "it doesn't write just its argument to its writer"
        elif isinstance(v, tuple) and v[0] == "sym" and opaque(v):
            r.notes.append("undecided: %s returns %s" % (f.id, repr(v)[:100]))
            continue
        else:
            ok, why = False, "it doesn't return or write what was written for its argument"
        r.check(ok, f.id, "%s: %s" % (f.id, why), f.id, "%s: its argument, written once" % f.id)
