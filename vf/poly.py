"""Functions of the library crates as written, with everything they call in the facet crates inlined:
expressions in terms of their parameters, and what is reachable under an assumption."""
from . import flow, vt
from .flow import walk
from .vt import fname, fdef


class Fam:
    """a graph whose parameters stand for expressions of the root function (None: the root itself)"""

    def __init__(self, g, sub, at=None):
        self.g, self.sub, self.at = g, sub, at
        self.f = vt.Fam(g, sub)

    def res(self, e):
        return self.f.res(e)


def closure_of(e):
    x = e[1] if e[0] == "ref" else e
    if x[0] == "agg" and x[1][0] == "closure":
        return x, x[1][1]
    if x[0] == "k":
        c = x[1]
        ty = c["_cr"].types[c["ty"]] if isinstance(c.get("ty"), int) else None
        if ty and ty["k"] == "closure":
            return x, ty.get("def")
    if x[0] == "cast" and x[2][0] in ("k", "agg"):
        return closure_of(x[2])
    return None, None


class Root:
    def __init__(self, P, fn, policy=vt.policy, cap=20000):
        self.P, self.fn = P, fn
        self.g = flow.Graph(P, fn, policy, cap=cap)
        self.policy = policy
        self.fams = [Fam(self.g, None)]
        self._ids = {}
        self._memo = {}
        self._close(self.fams[0], 0)
        raw = fn.raw
        self.at = ":".join(str(raw.get("span", "?")).split(":")[:2])

    def _close(self, fam, depth):
        if depth > 4:
            return
        g = fam.g
        for bi in sorted(g.reachable()):
            t = g.blocks[bi]["t"]
            if t[0] != "call":
                continue
            args = None
            for j, a in enumerate(t[2]):
                x, d = closure_of(g.expr(a))
                if d is None:
                    continue
                if args is None:
                    args = [fam.res(g.expr(y)) for y in t[2]]
                x = fam.res(x)
                f = self.P.by_id(d, g.blocks[bi]["fn"].crate)
                if f is None or f.body is None:
                    continue
                cg = flow.Graph(self.P, f, self.policy, cap=20000)
                ty0 = f.crate.types[f.body["locals"][1]]["k"]
                sub = {0: ("ref", x) if ty0 == "ref" else x}
                for k in range(1, f.body["argc"]):
                    sub[k] = ("item", bi, j, k - 1, fname(g.fnval(t)) if g.fnval(t) else "?", args)
                cf = Fam(cg, sub, (fam, bi, j))
                self.fams.append(cf)
                self._close(cf, depth + 1)

    # -- canonical expressions
    def canon(self, e):
        """an integer that is equal for equal expressions"""
        k = id(e)
        m = self._memo.get(k)
        if m is not None and m[0] is e:
            return m[1]
        r = self._canon(e)
        v = self._ids.setdefault(r, len(self._ids))
        self._memo[k] = (e, v)
        return v

    def _canon(self, e):
        e = bare(e)
        k = e[0]
        if k == "k":
            c = e[1]
            ts = type_shape(self, e)
            if ts:
                return ("SHAPE", ts)
            if "fn" in c:
                return ("fn", fname(c["fn"]), tuple(self.g.tyname(c["_cr"], a, c.get("_fr", 0)) for a in c["fn"].get("args", [])))
            for n in ("bits", "str", "uneval"):
                if n in c:
                    return (n, str(c[n]), c.get("promoted"))
            return ("k", str({x: y for x, y in c.items() if x not in ("_cr", "_fr", "_own")}))
        if k == "call":
            f = fname(e[1]) if isinstance(e[1], dict) else self.canon(e[1])
            impure = isinstance(f, str) and f.split("::")[-1] in ("next", "pop", "take", "next_back", "alloc")
            return ("call", f, tuple(self.canon(x) for x in e[2]), e[3] if impure else None)
        if k == "item":
            return ("item",) + e[1:4]
        if k == "agg":
            return ("agg", e[1][:3] if e[1][0] != "closure" else e[1][:2], tuple(self.canon(x) for x in e[2]))
        if k == "cast":
            return ("cast", e[1], self.canon(e[2]))
        if k == "phi":
            return ("phi", tuple(sorted(self.canon(x) for x in e[1])))
        out = [k]
        for x in e[1:]:
            if isinstance(x, tuple):
                out.append(self.canon(x))
            elif isinstance(x, list):
                out.append(tuple(self.canon(y) for y in x))
            else:
                out.append(x)
        return tuple(out)

    def same(self, a, b):
        return self.canon(a) == self.canon(b)

    # -- reachability under an assumption
    def reach(self, fam, assume, start=None, env=None):
        """blocks of fam's graph that execution can enter when `assume(kind, expressions)` tells what the
        conditions it knows evaluate to; kinds: 'eq' (a, b), 'lt'/'le' (a, b), 'discr' (e,), 'call' (f, args), 'value' (e,)"""
        vis = set()
        self.outcomes(fam, assume, vis, start, env)
        return vis

    def outcomes(self, fam, assume, visited=None, start=None, env=None, marks=None, auto=None, stop=()):
        g = fam.g
        memo = {}

        def hook(bi, rv):
            k = (bi, id(rv))
            if rv[0] == "call":
                k = (bi, id(rv[1]))
            if k not in memo:
                memo[k] = self._assumed(fam, rv, assume, bi)
            return memo[k]
        return g.paths(marks or {}, start=start, env=env, hook=hook, visited=visited, limit=60000, auto=auto, stop=stop)

    def enters(self, fam, bi, assume):
        """can execution of the root reach block bi of fam under the assumption?"""
        while True:
            if bi not in self.reach(fam, assume):
                return False
            if fam.at is None:
                return True
            fam, bi = fam.at[0], fam.at[1]

    def _assumed(self, fam, rv, assume, bi):
        g = fam.g
        given = assume

        def assume(kind, a):
            if kind == "eq" and all(x[0] == "." and x[3] == "id" for x in map(bare, a)):
                # two shapes are equal when their ids are
                v = given("eq", tuple(strip(bare(x)[1]) for x in a))
                if v is not None:
                    return v
            return given(kind, a)
        R = lambda o: fam.res(g.expr(o))
        if rv[0] == "call":
            t = rv[1]
            f = g.fnval(t)
            it = fname(f).split("::")[-1] if f else ""
            if f and it in ("eq", "ne") and len(t[2]) == 2:
                v = assume("eq", (strip(R(t[2][0])), strip(R(t[2][1]))))
                if v is None:
                    return None
                return int(v) if it == "eq" else 1 - int(v)
            if f and it in ("lt", "le", "gt", "ge") and len(t[2]) == 2:
                a, b = strip(R(t[2][0])), strip(R(t[2][1]))
                if it in ("gt", "ge"):
                    a, b = b, a
                v = assume("lt" if it in ("lt", "gt") else "le", (a, b))
                return None if v is None else int(v)
            return assume("call", (f if f else R(t[1]), [R(a) for a in t[2]], bi))
        if rv[0] == "bin":
            op = rv[1]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                a, b = strip(R(rv[2])), strip(R(rv[3]))
                if op in ("Gt", "Ge"):
                    a, b = b, a
                v = assume({"Eq": "eq", "Ne": "eq", "Lt": "lt", "Gt": "lt"}.get(op, "le"), (a, b))
                if v is None:
                    return None
                return 1 - int(v) if op == "Ne" else int(v)
            return None
        if rv[0] == "discr":
            return assume("discr", (fam.res(g.place_expr(rv[1])),))
        if rv[0] == "use" and rv[1][0] in ("c", "m"):
            return assume("value", (R(rv[1]),))
        return None


def strip(e):
    """references and pointer-to-pointer casts removed"""
    while True:
        if e[0] == "ref":
            e = e[1]
        elif e[0] == "cast" and e[1].startswith(("PtrToPtr", "PointerCoercion", "Ptr")):
            e = e[2]
        else:
            return e


def type_shape(root, e):
    """T when e is `<T as Facet>::SHAPE` (or a reference to it)"""
    e = strip(e)
    if e[0] == "*":
        e = strip(e[1])
    if e[0] != "k":
        return None
    c = e[1]
    if c.get("promoted") is not None and "_own" in c:
        b = c["_own"].promoted[c["promoted"]]
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("utrait") == "facet_core::Facet":
                    d = dict(s[2][1][1])
                    d["_cr"], d["_fr"] = c["_own"].crate, c.get("_fr", 0)
                    return type_shape(root, ("k", flow._K(d)))
        return None
    if c.get("utrait") == "facet_core::Facet" and c.get("uneval", "").endswith("::SHAPE"):
        return root.g.tyname(c["_cr"], c["uargs"][0], c.get("_fr", 0))
    return None


def ptr(e, n=0):
    """(base expression, byte offset expression or None) of a pointer value"""
    off = None
    while n < 80:
        n += 1
        if e[0] == "cast":
            e = e[2]
        elif e[0] == "agg" and e[1][0] == "adt" and e[1][1] in vt.PTRS and e[2]:
            e = e[2][0]
        elif e[0] == "call" and isinstance(e[1], dict):
            f = fname(e[1])
            it = f.split("::")[-1]
            if any(f.endswith(x) for x in vt.SAME_NAMES if x != "::byte_add") and e[2]:
                e = e[2][0]
            elif it in ("byte_add", "add", "byte_offset", "offset") and len(e[2]) == 2 and off is None:
                off = e[2][1]
                e = e[2][0]
            else:
                break
        elif e[0] == "." and e[2] == 0 and e[3] == "0" and e[4] in (None, ) and e[1][0] in (".", "call", "p", "*", "item"):
            x = e[1]
            # the pointer inside a PtrConst/PtrMut/PtrUninit
            if x[0] == "." and x[3] in ("0",) and x[4] is None and x[1][0] not in ("*",):
                break
            e = x
        else:
            break
    return e, off


def apis(P, crate, pred=None):
    """functions of a crate that code outside it can call"""
    c = crate
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.crate is c and f.raw.get("kind") in ("Fn", "AssocFn") and (f.raw.get("reach") or f.raw.get("impl", {}).get("trait")):
            if pred is None or pred(f):
                yield f


def self_ty(f):
    """path of the type an associated function belongs to"""
    im = f.raw.get("impl")
    if not im:
        return None
    t = f.crate.types[im["self"]] if isinstance(im["self"], int) else {}
    return t.get("def") or t.get("s")


def trait_of(f):
    return (f.raw.get("impl") or {}).get("trait")


# -- elements of slices
def bare(e):
    while True:
        e = strip(e)
        if e[0] == "*":
            e = e[1]
        else:
            return e


def fld(e, name):
    """the expression whose field `name` e is, or None"""
    e = bare(e)
    if e[0] == "." and e[3] == name:
        return bare(e[1])
    return None


def item_of(f):
    return fname(f).split("::")[-1] if isinstance(f, dict) else ""


PASS = ("iter", "into_iter", "iter_mut", "copied", "cloned", "by_ref", "as_slice", "as_ref", "deref", "borrow")


def iter_src(e, rev=False):
    """(slice expression, enumerated?) an iterator runs over from its start, or None"""
    en = False
    for _ in range(20):
        e = bare(e)
        if e[0] == "call" and isinstance(e[1], dict) and e[2]:
            it = item_of(e[1])
            if it == "enumerate":
                if en:
                    return None
                en = True
                e = e[2][0]
                continue
            if it in PASS or rev and it == "rev":
                e = e[2][0]
                continue
            if it in ("rev", "skip", "take", "filter", "map", "step_by", "chain", "zip", "skip_while", "take_while", "peekable", "filter_map", "flat_map"):
                return None
        return e, en
    return None


def _tick(root, e, rev=False):
    """(slice, enumerated, key) when e is what one step of an iteration yields"""
    e = bare(e)
    if e[0] == "item" and e[2] != 0 and e[5]:
        s = iter_src(e[5][0], rev)
        return s and s + (("it", e[1]),)
    if e[0] == "." and e[4] == "Some" and e[2] == 0:
        c = bare(e[1])
        if c[0] == "call" and isinstance(c[1], dict) and c[2] and item_of(c[1]) in ("next", "find"):
            s = iter_src(c[2][0], rev)
            return s and s + (("it", c[3]),)
    return None


def elem(root, e):
    """(slice, index) identity of the slice element e denotes, or None"""
    e = bare(e)
    if e[0] == "idx":
        return root.canon(bare(e[1])), index(root, e[2])
    if e[0] == "call" and item_of(e[1]) in ("index", "get_unchecked") and len(e[2]) == 2:
        return root.canon(bare(e[2][0])), index(root, e[2][1])
    t = _tick(root, e)
    if t and not t[1]:
        return root.canon(bare(t[0])), t[2]
    if e[0] == "." and e[2] == 1 and e[3] in (None, "1") and e[4] is None:
        t = _tick(root, e[1])
        if t and t[1]:
            return root.canon(bare(t[0])), t[2]
    if e[0] == "." and e[4] == "Some":
        c = bare(e[1])
        if c[0] == "call" and item_of(c[1]) == "get" and len(c[2]) == 2:
            return root.canon(bare(c[2][0])), index(root, c[2][1])
    return None


def slice_of(root, e):
    """expression of the slice e is an element of"""
    e = bare(e)
    if e[0] == "idx":
        return bare(e[1])
    if e[0] == "call" and item_of(e[1]) in ("index", "get_unchecked") and len(e[2]) == 2:
        return bare(e[2][0])
    t = _tick(root, e)
    if t and not t[1]:
        return bare(t[0])
    if e[0] == "." and e[2] == 1 and e[3] in (None, "1") and e[4] is None:
        t = _tick(root, e[1])
        if t and t[1]:
            return bare(t[0])
    if e[0] == "." and e[4] == "Some":
        c = bare(e[1])
        if c[0] == "call" and item_of(c[1]) == "get" and len(c[2]) == 2:
            return bare(c[2][0])
    return None


def index(root, i, rev=False):
    i = bare(i)
    if i[0] == "cast":
        i = bare(i[2])
    if i[0] == "." and i[2] == 0 and i[3] in (None, "0") and i[4] is None:
        t = _tick(root, i[1], rev)
        if t and t[1]:
            return t[2]
    if i[0] == "." and i[4] == "Some":
        c = bare(i[1])
        if c[0] == "call" and item_of(c[1]) == "position":
            return ("it", c[3])
    return ("e", root.canon(i))
