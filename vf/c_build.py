"""What facet-reflect's builder keeps track of: which parts are initialized, who frees what, which variant is selected (C17-C20)."""
from . import flow, vt, poly
from .flow import walk
from .vt import fname
from .poly import bare, fld, item_of
from .c_peek import aggs, calls, label
from .c_wip import (program, flat, const, frames_of, slot, mode_const, took, from_top_index, WIP, FRAME, ISTATE, MODE, FLAGS, HEAP, GUARD, ISET, PEEK, VID, TABLES)

WRITES = {"default_in_place": 0, "clone_into": 1, "parse": 1}


def fkind(e):
    """name of the FrameFlags constant an expression is"""
    c = const(e)
    if c is None:
        return None
    n = str(c.get("uneval", ""))
    if "FrameFlags" in n:
        return n.split("::")[-1]
    return {"0": "EMPTY", "1": "ALLOCATED", "2": "MOVED"}.get(str(c.get("bits")))


class Ev:
    """what a root does to frames, block by block, in order"""

    def __init__(self, rt):
        self.rt = rt
        self._e = {}

    def key(self, fam, e):
        """identity of the frame an expression denotes: by the memory it is about"""
        rt = self.rt
        x = bare(e)
        if x[0] == "agg" and x[1][0] == "adt" and x[1][1] == FRAME:
            ds = rt.place(fam, x[2][list(x[1][3]).index("data")])
            if len(ds) == 1 and None not in ds:
                return next(iter(ds))
        return ("own", rt.fkey(fam, e))

    def at(self, fam, addr):
        """the frame whose value an address is"""
        ds = self.rt.place(fam, addr)
        return next(iter(ds)) if len(ds) == 1 and None not in ds else None

    def state(self, fam, e, part):
        """key of X when e is X.istate.part"""
        s = fld(e, part)
        if s is None:
            return None
        o = fld(s, "istate")
        return self.key(fam, o) if o is not None else None

    def owner(self, fam, st):
        """the frame whose bookkeeping an expression is"""
        o = fld(st, "istate")
        if o is not None:
            return self.key(fam, o)
        ks = self.rt.state_owner(fam, st)
        return next(iter(ks)) if len(ks) == 1 and not ks & {None, "new"} else None

    def part(self, fam, p):
        """(key of X, part, how deep) when a place is X.istate.part..., however X is held"""
        pr = p[1]
        for i in range(len(pr) - 1, -1, -1):
            if isinstance(pr[i], list) and pr[i][0] == "f" and pr[i][2] == "istate":
                rest = [x[2] for x in pr[i + 1:] if isinstance(x, list) and x[0] == "f"]
                return self.key(fam, fam.res(fam.g.place_expr([p[0], pr[:i]]))), (rest[0] if rest else None), len(rest)
        return None

    def arg(self, fam, o, n=0):
        """what part() finds for the place an argument points to"""
        if o[0] not in ("c", "m") or n > 12:
            return None
        p = o[1]
        x = self.part(fam, p)
        if x is not None:
            return x
        if [y for y in p[1] if y != "*"]:
            return None
        ds = fam.g.defs.get(p[0], [])
        if len(ds) == 1:
            rv = ds[0][2]
            if rv[0] in ("ref", "raw"):
                x = self.part(fam, rv[2])
                if x is None and not [y for y in rv[2][1] if y != "*"]:
                    return self.arg(fam, ["c", [rv[2][0], []]], n + 1)
                return x
            if rv[0] == "use":
                return self.arg(fam, rv[1], n + 1)
            if rv[0] == "cast":
                return self.arg(fam, rv[2], n + 1)
        return None

    def payload(self, fam, idx):
        """key of Y when idx is the payload of Y.field_index_in_parent"""
        i = bare(idx)
        if i[0] == "." and i[4] == "Some":
            o = fld(i[1], "field_index_in_parent")
            if o is not None:
                return self.key(fam, o)
        return None

    def events(self, fi):
        if fi in self._e:
            return self._e[fi]
        rt = self.rt
        fam = rt.fams[fi]
        g = fam.g
        out = {}
        for bi in sorted(g.reachable()):
            ev = []
            for s in g.blocks[bi]["s"]:
                if s[0] == "=" and s[1][1]:
                    ev += self._store(fam, bi, s)
            t = g.blocks[bi]["t"]
            if t[0] == "call":
                ev += self._call(fam, bi, t)
            if ev:
                out[bi] = ev
        self._e[fi] = out
        return out

    def _store(self, fam, bi, s):
        g = fam.g
        pr = s[1][1]
        x = self.part(fam, s[1])
        if x is not None and x[2] <= 1:
            v = fam.res(g._rv_expr((bi, 0, s[2]), 0, ()))
            if x[1] in ("fields", "variant"):
                return [("=" + x[1], x[0], v)]
            if x[1] is None:
                return [("=istate", x[0], v)]
            return [("=part", x[0], x[1], v)]
        if pr == ["*"] or pr[-1] == "*":
            x = fam.res(g.place_expr([s[1][0], pr[:-1]]))
            b = bare(poly.ptr(x)[0])
            if fld(b, "data") is not None:
                k = self.at(fam, x)
                if k is not None:
                    cr, ti = g.locals[s[1][0]]
                    T = None
                    if len(pr) == 1 and isinstance(ti, int) and cr.types[ti].get("args"):
                        T = g.tyname(cr, cr.types[ti]["args"][0], g.blocks[bi]["fr"])
                    return [("T", k, T, fam.res(g._rv_expr((bi, 0, s[2]), 0, ())))]
        return []

    def _call(self, fam, bi, t):
        rt, g = self.rt, fam.g
        f = g.fnval(t)
        R = lambda o: fam.res(g.expr(o))
        args = [R(a) for a in t[2]]
        if f is None:
            fe = R(t[1])
            s = slot(fe)
            if s is None:
                if bare(fe)[0] == "p" and args:
                    k = self.at(fam, args[0])
                    return [("W", k, "a function given by the caller")] if k else []
                return []
            kind, owner, name, dk = s
            if kind == "value" and name in WRITES and WRITES[name] < len(args):
                k = self.at(fam, args[WRITES[name]])
                return [("W", k, name)] if k else []
            if kind == "value" and name == "drop_in_place":
                k = self.at(fam, args[0])
                return [("X", k)] if k else []
            if kind == "def" and name in TABLES:
                out = []
                for i, el in TABLES[name][2]:
                    k = self.at(fam, args[i])
                    out.append(("H", k, name))
                if name == "init_some_fn":
                    out.append(("W", self.at(fam, args[0]), name))
                return out
            return []
        it, n = item_of(f), fname(f)
        c = rt.prog.callee(f, g.blocks[bi]["fn"].crate)
        if c is not None and c.id in rt.prog.cleaners:
            F = next((a for i, a in enumerate(args) if rt.prog.argty(c, i).get("def") == FRAME), None)
            return [("R", self.key(fam, F), F)]
        s = poly.self_ty(c) if c is not None else None
        if s == ISET and args:
            x = self.arg(fam, t[2][0])
            k = x[0] if x is not None and x[1] == "fields" else self.state(fam, args[0], "fields")
            if k is None:
                return []
            if it == "set":
                y = self.payload(fam, args[1])
                cst = const(args[1])
                if y is not None:
                    return [("P", k, y, args[0])]
                return [("M", k, "set", args[1])]
            if it == "unset":
                return [("U", k, self.payload(fam, args[1]), args)]
            if it == "clear":
                return [("Z", k)]
            return [("?" + it, k, args)]
        if s == FLAGS and args:
            o = fld(args[0], "flags")
            x = self.arg(fam, t[2][0])
            if x is not None and x[1] == "flags":
                return [("F", x[0], it, fkind(args[1]), "frame")] if it in ("insert", "remove", "set", "toggle") and len(args) > 1 else []
            k = self.owner(fam, o) if o is not None else None
            if it in ("insert", "remove", "set", "toggle") and len(args) > 1:
                return [("F", k, it, fkind(args[1]), "copy")]
            return []
        if it in ("replace", "take") and n.startswith("core::mem") or it in ("replace", "take") and "mem::" in n:
            x = self.arg(fam, t[2][0])
            if x is not None and x[1] in (None, "fields", "variant"):
                return [("=" + (x[1] or "istate"), x[0], args[1] if len(args) > 1 else None)]
        if it in ("copy_nonoverlapping", "copy") and "ptr" in n or it == "copy_nonoverlapping":
            k = self.at(fam, args[1])
            return [("W", k, "copy")] if k else []
        if it == "dealloc":
            k = self.at(fam, args[0])
            return [("D", k, args)]
        if s is not None and s.endswith("::FlatMap") and args and fld(args[0], "istates") is not None:
            return [("S" + it, args)]
        if it in ("pop", "remove", "swap_remove") and args and frames_of(args[0]) is not None:
            return [("O", ("own", ("taken", bi)), it)]
        return []


def cleared(rt, v):
    """is a set of initialized fields empty / a bookkeeping record one of nothing?"""
    if v is None:
        return True
    x = bare(v)
    if x[0] == "call" and item_of(x[1]) in ("default", "new", "empty") and not x[2]:
        return True
    if x[0] == "agg" and x[1][0] == "adt" and x[1][1] == ISET:
        c = const(x[2][0])
        return c is not None and str(c.get("bits")) == "0"
    return False


def no_variant(v):
    x = bare(v)
    return x[0] == "agg" and x[1][0] == "adt" and x[1][2] == "None"


# ---------------------------------------------------------------- common assumptions
class View:
    """questions about conditions on a frame, shared by the rules"""

    def __init__(self, ev):
        self.ev, self.rt = ev, ev.rt

    def def_of(self, fam, e):
        """key(s) of the values whose shape's definition e is"""
        o = fld(e, "def")
        return self.rt.shape1(fam, o) if o is not None else None

    def is_def(self, fam, e, K):
        s = self.def_of(fam, e)
        return s is not None and (s == K or (K[0] == "field" and s == ("field", K[2])) or (K[0] == "new" and s == K[1]))

    def index_of(self, fam, e):
        """key of Y when e is Y.field_index_in_parent"""
        o = fld(e, "field_index_in_parent")
        return self.ev.key(fam, o) if o is not None else None

    def iset(self, fam, f, args, K, item):
        """is it a call of ISet::item on K's set?"""
        c = self.rt.prog.callee(f, self.rt.prog.c) if isinstance(f, dict) else None
        return c is not None and poly.self_ty(c) == ISET and item_of(f) == item and self.ev.state(fam, args[0], "fields") == K

    def base(self, fam, kind, a):
        """what always holds where the question is asked: there is a frame, an enum's Peek is one of an enum"""
        if kind == "discr":
            x = bare(a[0])
            if x[0] == "call":
                it = item_of(x[1])
                if it in ("last", "last_mut") and x[2] and frames_of(x[2][0]) is not None:
                    return 1
                if it == "into_enum":
                    return 0
        return None

    def with_def(self, fam, K, d):
        def assume(kind, a):
            if kind == "discr" and self.is_def(fam, a[0], K):
                return d
            return self.base(fam, kind, a)
        return assume

    def init(self, fam, K, v):
        """K is (or isn't) fully initialized"""
        def assume(kind, a):
            if kind == "call" and self.iset(fam, a[0], a[1], K, "are_all_set"):
                return int(v)
            if kind == "discr" and self.ev.state(fam, a[0], "variant") == K:
                return int(v)
            return self.base(fam, kind, a)
        return assume

    def partial(self, fam, K, var):
        """not every field of K is initialized (var: has it a selected variant?)"""
        def assume(kind, a):
            if kind == "call" and self.iset(fam, a[0], a[1], K, "are_all_set"):
                return 0
            if kind == "discr" and self.ev.state(fam, a[0], "variant") == K:
                return var
            return self.base(fam, kind, a)
        return assume

    def has(self, fam, K, v, idx=None):
        def assume(kind, a):
            if kind == "call" and self.iset(fam, a[0], a[1], K, "has") and (idx is None or idx(a[1][1])):
                return int(v)
            return self.base(fam, kind, a)
        return assume


def both(*fs):
    def assume(kind, a):
        for f in fs:
            v = f(kind, a)
            if v is not None:
                return v
        return None
    return assume


def on_stack(K):
    return K is not None and K[0] == "own" and K[1][0] in ("top", "at")


def ok(v):
    return not (isinstance(v, tuple) and v[0] == "v" and v[1] in ("Err", "None"))


def indices(fam, e):
    """(index of X in the frames, 'last' for the last one) when e is (part of) frame X on the stack"""
    for x in walk(bare(e)):
        if x[0] == "call" and item_of(x[1]) in ("index", "index_mut", "get", "get_mut") and len(x[2]) == 2 and frames_of(x[2][0]) is not None:
            return bare(x[2][1])
        if x[0] == "call" and item_of(x[1]) in ("last", "last_mut") and x[2] and frames_of(x[2][0]) is not None:
            return "last"
    return None


def minus_one(rt, j, i):
    """is index j = i - 1?"""
    if i == "last":
        return from_top_index(rt, j, 2) is True
    if j == "last" or i is None or j is None:
        return False

    def split(x):
        x = bare(x)
        if x[0] == "." and x[2] == 0 and bare(x[1])[0] == "bin":
            x = bare(x[1])
        if x[0] == "bin" and x[1][:3] in ("Sub", "Add"):
            c = const(x[3])
            if c is not None and "bits" in c:
                return bare(x[2]), int(c["bits"]) * (1 if x[1][:3] == "Add" else -1)
        return x, 0
    (a, m), (b, n) = split(j), split(i)
    return rt.same(a, b) and n - m == 1


# ---------------------------------------------------------------- C18: what is initialized
def c18(fx, r):
    p = program(fx)
    r.rule("typestate of every frame through every public operation: memory is written only when what it held was released and forgotten (or it held nothing), "
           "a frame is marked initialized only after it was written, and always before the operation succeeds; its marks name its own fields, or its own active variant's")
    for rt in p.roots():
        ev = Ev(rt)
        for fi, fam in enumerate(rt.fams):
            written(rt, ev, fi, fam, r)
            parents(rt, ev, fi, fam, r)
            asked(rt, ev, fi, fam, r)
            filled(rt, ev, fi, fam, r)
            recorded(rt, ev, fi, fam, r)
            builds(rt, ev, fi, fam, r)
        depths(rt, r)
    from .c_sets import collections
    collections(fx, r)
    r.floor("completeness walks", 1)
    r.floor("values written into frames", 8)
    r.floor("frames marked initialized", 10)


def written(rt, ev, fi, fam, r):
    g = fam.g
    E = ev.events(fi)
    V = View(ev)
    stack = {b: [x for x in xs] for b, xs in E.items()}
    Ws = [(b, x) for b, xs in E.items() for x in xs if x[0] in ("W", "T") and on_stack(x[1])]
    Ms = [(b, x) for b, xs in E.items() for x in xs if x[0] == "M" or (x[0] == "=fields" and not cleared(rt, x[2]))]
    for b, x in Ws:
        r.count("values written into frames")
    for b, x in Ms:
        r.count("frames marked initialized")
    if not Ws and not Ms and not any(x[0] == "R" for xs in E.values() for x in xs):
        return
    guarded = {}

    def no_release(b, K):
        """is the block only entered when the frame held nothing?"""
        if (b, K) not in guarded:
            guarded[b, K] = not rt.enters(fam, b, V.has(fam, K, True))
        return guarded[b, K]
    errs = {}

    def err(code, bi, what):
        errs.setdefault((code, what), bi)

    def step(st, x, bi):
        k, K = x[0], x[1]
        if k == "O":
            return frozenset(y for y in st if y[1] != K)
        if k in ("=istate", "=fields", "=variant", "Z"):
            v = x[2] if len(x) > 2 else None
            if k == "=istate":
                a = bare(v) if v is not None else None
                if a is not None and a[0] == "agg" and a[1][1] == ISTATE:
                    fs = dict(zip(a[1][3], a[2]))
                    if cleared(rt, fs["fields"]):
                        st = st | {("f", K)}
                    if no_variant(fs["variant"]):
                        st = st | {("v", K)}
                    return st
                return st
            if k == "Z" or (k == "=fields" and cleared(rt, v)):
                return st | {("f", K)}
            if k == "=variant" and no_variant(v):
                return st | {("v", K)}
        if k == "R" and on_stack(K):
            return (st | {("r", K)}) - {("u", K)}
        if k in ("W", "T") and on_stack(K):
            if ("r", K) not in st and not no_release(bi, K):
                err("release", bi, "writes into a frame without releasing what its memory holds")
            if ("r", K) in st and not {("f", K), ("v", K)} <= st:
                err("forget", bi, "writes into a frame that still counts what was released as initialized")
            st = frozenset(y for y in st if y[1] != K or y[0] in ("W",))
            return st | ({("w", K), ("W", K)} if k == "W" else {("t", K), ("T", K)})
        if k == "M" or (k == "=fields"):
            if ("W", K) not in st and not given(fam, bi, K):
                err("mark", bi, "marks a frame initialized that it did not write")
            return st - {("w", K)}
        if k == "=variant":
            if ("W", K) not in st and ("T", K) not in st and not given(fam, bi, K):
                err("variant", bi, "records a variant for a frame that it did not write")
            return st - {("t", K)}
        return st
    gv = {}

    def given(fam, bi, K):
        if (bi, K) not in gv:
            gv[bi, K] = was_set(rt, V, fam, bi, K)
        return gv[bi, K]
    outs = rt.outcomes(fam, lambda kind, a: V.base(fam, kind, a), auto=(frozenset(), stack, step))
    at = rt.at
    for st, v in outs:
        if st is None:
            r.bad(rt.name + ":size", "%s is too large to be followed" % rt.name, at)
            continue
        if ok(v):
            for y in st:
                if y[0] == "w":
                    err("unmarked", None, "succeeds without marking what it wrote as initialized")
                if y[0] == "t":
                    err("untagged", None, "succeeds without recording the variant whose tag it wrote")
        for y in st:
            if y[0] == "r" and not {("f", y[1]), ("v", y[1])} <= st:
                err("forget", None, "releases what a frame holds, which still counts as initialized")
    for (code, what), bi in errs.items():
        r.bad("%s:%s" % (rt.name, code), "%s %s" % (rt.name, what), g.where(bi) if bi is not None else at)
    n = len(Ws) + len(Ms)
    for _ in range(n):
        r.ok()
    if Ws:
        r.ok("%s: released, forgotten, written, marked, in that order" % rt.name)
    parse_marks(rt, V, fam, E, r)
    for b, x in Ms:
        mark_kind(rt, V, fam, b, x, E, r)
    for b, xs in E.items():
        for x in xs:
            if x[0] == "=variant" and not no_variant(x[2]):
                variant_kind(rt, V, fam, b, x, E, r)


def was_set(rt, V, fam, bi, K):
    """is block bi only entered when the field at K is one its struct or enum has marked?"""
    if K[0] != "field":
        return False
    own = K[1]
    ids = {i[1] for i in K[2] if isinstance(i, tuple) and i[0] is not None}

    def idx(e):
        return poly.index(rt, e) in ids
    return len(ids) == 1 and not rt.enters(fam, bi, V.has(fam, own, False, idx))


def parse_marks(rt, V, fam, E, r):
    """what wasn't parsed is not initialized"""
    g = fam.g
    ps = [b for b, xs in E.items() for x in xs if x[0] == "W" and x[2] == "parse"]
    for b in ps:
        def assume(kind, a, b=b):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] == b:
                    return 1
            return V.base(fam, kind, a)
        vis = rt.reach(fam, assume)
        bad = [m for m in vis for x in E.get(m, ()) if x[0] == "M" or (x[0] == "=fields" and not cleared(rt, x[2]))]
        r.check(not bad, rt.name + ":parse", "%s marks a frame initialized when parsing it failed" % rt.name, g.where(b), "%s: nothing is marked when parsing fails" % rt.name)
        outs = {ok(v) for _, v in rt.outcomes(fam, assume)}
        r.check(True not in outs, rt.name + ":parse:err", "%s succeeds when parsing failed" % rt.name, g.where(b))


def mark_kind(rt, V, fam, b, x, E, r):
    """a mark is the right one for the kind of the value"""
    g = fam.g
    at = g.where(b)
    K = x[1]
    d = rt.prog.defs
    if x[0] == "M":
        c = const(x[3])
        if not r.check(c is not None and str(c.get("bits")) == "0", rt.name + ":set:which", "%s marks an index of a frame that is not known to be written" % rt.name, at):
            return
        bad = [n for n in ("Struct", "Enum") if rt.enters(fam, b, V.with_def(fam, K, d[n]))]
        r.check(not bad, rt.name + ":set:kind", "%s marks only the first field of a %s" % (rt.name, "/".join(bad)), at, "%s: single mark only for values without fields" % rt.name)
        return
    v = bare(x[2])
    if not r.check(v[0] == "call" and item_of(v[1]) == "all" and len(v[2]) == 1, rt.name + ":fields:all", "%s replaces a frame's marks by something else than all of its fields" % rt.name, at):
        return
    for sl in flat(v[2][0]):
        av = active(rt, sl, "fields")
        if av is not None:
            r.check(V.ev.at(fam, av) == K, rt.name + ":fields:variant", "%s marks the fields of another value's variant" % rt.name, at, "%s: all fields of the active variant" % rt.name)
            continue
        o = rt.slice_owner(fam, sl)
        good = o == K or (K[0] == "field" and o == ("field", K[2])) or (K[0] == "new" and o == K[1])
        r.check(good, rt.name + ":fields:own", "%s marks fields that are not those of the frame's shape" % rt.name, at, "%s: all fields of the frame's own struct" % rt.name)


def active(rt, sl, part):
    """address of the value whose active variant's `fields` e is (or, with part None, whose active variant e is)"""
    x = bare(sl)
    if part is not None:
        x = fld(x, part)
        x = fld(x, "data") if x is not None else None
        if x is None:
            return None
    x = bare(x)
    while x[0] == "." and x[4] in ("Ok", "Some"):
        x = bare(x[1])
    if x[0] != "call" or item_of(x[1]) != "active_variant" or not x[2]:
        return None
    y = bare(x[2][0])
    if y[0] == "." and y[4] == "Ok":
        y = bare(y[1])
    if y[0] == "call" and item_of(y[1]) == "into_enum" and y[2]:
        pk = bare(y[2][0])
        if pk[0] == "agg" and pk[1][1] == PEEK:
            return pk[2][list(pk[1][3]).index("data")]
    return None


def variant_kind(rt, V, fam, b, x, E, r):
    """the variant recorded is the one the memory says: read from it, or just written to it"""
    g = fam.g
    at = g.where(b)
    K = x[1]
    v = bare(x[2])
    r.count("variants recorded")
    if v[0] == "agg" and v[1][2] == "Some":
        v = v[2][0]
        av = active(rt, v, None)
        if av is not None:
            r.check(V.ev.at(fam, av) == K, rt.name + ":variant:own", "%s records the variant of another value" % rt.name, at, "%s: the variant read from the value itself" % rt.name)
            return
        tags = [y for xs in E.values() for y in xs if y[0] == "T" and y[1] == K]
        ds = []
        for y in tags:
            e = bare(y[3])
            while e[0] == "cast":
                e = bare(e[2])
            ds.append(fld(e, "discriminant"))
        good = bool(ds) and all(z is not None and rt.same(z, v) for z in ds)
        r.check(good, rt.name + ":variant:written", "%s records another variant than the one whose tag it writes" % rt.name, at, "%s: the variant whose tag was written" % rt.name)
        return
    r.bad(rt.name + ":variant:what", "%s records a variant whose origin is not recognised" % rt.name, at)


def parents(rt, ev, fi, fam, r):
    """when a value is released or completed in place, what it is part of knows"""
    g = fam.g
    E = ev.events(fi)
    V = View(ev)
    Rs = [(b, x) for b, xs in E.items() for x in xs if x[0] == "R" and on_stack(x[1])]
    if Rs:
        unset(rt, ev, fam, E, V, Rs, r)
    for b, xs in E.items():
        for x in xs:
            if x[0] == "P":
                marks_parent(rt, V, fam, b, x, E, r)
            if x[0] == "U":
                i, j = indices(fam, x[3][1]), indices(fam, x[3][0])
                r.check(x[2] is not None and minus_one(rt, j, i), rt.name + ":unset:which", "%s unmarks something else than the field the frame above it is" % rt.name, g.where(b),
                        "%s: the parent's own field is unmarked" % rt.name)
    if poly.trait_of(rt.fn):
        return
    for b, xs in E.items():
        for x in xs:
            if x[0] == "O" and x[2] == "pop":
                popped(rt, V, fam, b, x[1], E, r)


def unset(rt, ev, fam, E, V, Rs, r):
    g = fam.g
    r.count("releases in place", len(Rs))
    evs = {}
    for b in sorted(g.reachable()):
        xs = [("q", V.index_of(fam, fam.res(g.place_expr(s[2][1])))) for s in g.blocks[b]["s"] if s[0] == "=" and s[2][0] == "discr"]
        xs = [x for x in xs if on_stack(x[1])]
        xs += [x for x in E.get(b, ()) if x[0] in ("R", "U", "W", "T")]
        if xs:
            evs[b] = xs
    bad = []

    def assume(kind, a):
        if kind == "discr" and on_stack(V.index_of(fam, a[0])):
            return 1
        return V.base(fam, kind, a)

    def step(st, x, bi):
        if x[0] == "R":
            return "r" if on_stack(x[1]) else st
        if x[0] == "q" and st in ("r", "q"):
            return "q"
        if x[0] == "U" and st in ("r", "q"):
            return "r"
        if x[0] in ("W", "T") and on_stack(x[1]):
            if st == "q":
                bad.append(bi)
            return ""
        return st
    outs = rt.outcomes(fam, assume, auto=("", evs, step))
    r.check(not bad and not any(st == "q" for st, _ in outs), rt.name + ":unset:skipped",
            "%s releases a field's value but can leave the field marked in what it is part of" % rt.name, g.where(bad[0]) if bad else rt.at,
            "%s: parents' marks removed" % rt.name)
    us = [b for b, xs in E.items() for x in xs if x[0] == "U"]
    for b, x in Rs:
        seen = reach_from(g, b)
        good = [u for u in us if u in seen and u in reach_from(g, u)]
        r.check(bool(good), rt.name + ":unset", "%s releases a value in place without unmarking it in everything it is part of" % rt.name, g.where(b),
                "%s: every level above is unmarked" % rt.name)
    for u in us:
        for x in E[u]:
            if x[0] == "U":
                range_covers(rt, fam, indices(fam, x[3][1]), r, g.where(u))


def range_covers(rt, fam, i, r, at):
    """a loop over the levels above starts at the top and ends at the root"""
    x = bare(i) if isinstance(i, tuple) else None
    if x is None or x[0] != "." or x[4] != "Some":
        return
    c = bare(x[1])
    if c[0] != "call" or not c[2]:
        return
    rev = False
    y = bare(c[2][0])
    for _ in range(6):
        if y[0] == "call" and item_of(y[1]) in ("into_iter", "rev", "iter", "by_ref") and y[2]:
            rev = rev or item_of(y[1]) == "rev"
            y = bare(y[2][0])
    lo = hi = None
    if y[0] == "agg" and str(y[1][1]).endswith("::Range"):
        lo, hi = const(y[2][0]), bare(y[2][1])
        good = rev and lo is not None and str(lo.get("bits")) == "1" and hi[0] == "call" and item_of(hi[1]) == "len" and frames_of(hi[2][0]) is not None
        r.check(good, rt.name + ":unset:range", "%s does not unmark every level from the current frame up to the root" % rt.name, at, "%s: from the current frame up to the root" % rt.name)


def reach_from(g, b):
    seen, todo = set(), [x for x in g.succs(b) if x is not None]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [y for y in g.succs(x) if y is not None]
    return seen


def marks_parent(rt, V, fam, b, x, E, r):
    """a parent's mark names the field that was completed"""
    g = fam.g
    at = g.where(b)
    X, Y = x[1], x[2]
    r.count("parents marked")
    if Y[1][0] == "taken":
        good = on_stack(X) and X[1][0] == "top" and X[1][2] == frozenset({Y[1][1]})
        r.check(good, rt.name + ":parent:which", "%s marks a field of another frame than the parent of the one it took" % rt.name, at, "%s: the frame below the one taken" % rt.name)
        r.check(not any(rt.enters(fam, b, V.partial(fam, Y, v)) for v in (0, 1)), rt.name + ":parent:unless", "%s marks a field initialized in its parent when it isn't" % rt.name, at,
                "%s: only when fully initialized" % rt.name)
        return
    good = on_stack(X) and X[1][0] == "at" and Y[1][0] == "top" and X[1][1] == Y[1][1] and X[1][3] == Y[1][2] and minus_one(rt, indices(fam, x[3]), "last")
    r.check(good, rt.name + ":parent:which", "%s marks a field of another frame than the current one's parent" % rt.name, at, "%s: the frame below the current one" % rt.name)


def popped(rt, V, fam, b, K, E, r):
    """a field that is left fully initialized is marked in its parent"""
    g = fam.g
    evs = {}
    for bb, xs in E.items():
        ys = [x for x in xs if (x[0] in ("O", "R") and x[1] == K) or (x[0] == "P" and x[2] == K)]
        if ys:
            evs[bb] = ys
    init = V.init(fam, K, True)

    def assume(kind, a):
        if kind == "discr":
            if V.index_of(fam, a[0]) == K:
                return 1
            x = bare(a[0])
            if x[0] == "call" and x[3] == b and item_of(x[1]) == "pop":
                return 1
        return init(kind, a)
    bad = []

    def step(st, x, bi):
        if x[0] == "O":
            if st == "o":
                bad.append(bi)
            return "o"
        return ""
    for st, v in rt.outcomes(fam, assume, auto=("", evs, step)):
        if st == "o" and ok(v):
            bad.append(b)
    r.check(not bad, rt.name + ":pop:mark", "%s leaves a field fully initialized without marking it in its parent" % rt.name, g.where(b), "%s: fields left initialized are marked" % rt.name)


def own_fields(rt, K, sl):
    """is every list a slice expression can be one of the value's own fields?"""
    xs = [x for x in flat(sl) if const(x) is None]
    for x in xs:
        o = rt.slice_owner(rt.fams[0], x)
        if not (o == K or (K[0] == "field" and o == ("field", K[2]))):
            return False
    return True


def asked(rt, ev, fi, fam, r):
    """`all set` is asked for as many fields as the value has"""
    g = fam.g
    V = View(ev)
    d = rt.prog.defs
    for b, xs in ev.events(fi).items():
        for x in xs:
            if x[0] == "H" and x[1] is not None and x[1][0] == "own" and x[1][1][0] == "taken":
                bad = [v for v in (0, 1) if rt.enters(fam, b, V.partial(fam, x[1], v))]
                r.check(not bad, rt.name + ":handed", "%s puts a value that isn't fully initialized into a container" % rt.name, g.where(b), "%s: only fully initialized values are put into containers" % rt.name)
            if x[0] == "?is_any_set":
                # a value without fields is initialized with no mark at all
                K = x[1]

                def none(kind, a):
                    if kind == "call" and V.iset(fam, a[0], a[1], K, "is_any_set"):
                        return 0
                    return V.init(fam, K, True)(kind, a)
                r.count("initialization tests")
                late = [hb for hb, ys in ev.events(fi).items() for y in ys if y[0] == "H" and y[1] == K and not rt.enters(fam, hb, none)]
                r.check(not late, rt.name + ":any", "%s refuses a value that has no fields as if it weren't initialized" % rt.name, g.where(b), "%s: values without fields are initialized" % rt.name)
                continue
            if x[0] != "?are_all_set":
                continue
            r.count("initialization tests")
            n, K, at = bare(x[2][1]), x[1], g.where(b)
            c = const(n)
            if c is not None:
                bad = [k for k in ("Struct", "Enum") if str(c.get("bits")) != "1" or rt.enters(fam, b, V.with_def(fam, K, d[k]))]
                r.check(not bad, rt.name + ":all:one", "%s takes a %s for initialized when only part of it was tested" % (rt.name, "/".join(bad)), at,
                        "%s: one mark only for values without fields" % rt.name)
                continue
            good = n[0] == "call" and item_of(n[1]) == "len" and own_fields(rt, K, n[2][0])
            r.check(good, rt.name + ":all:count", "%s tests another number of fields than the value has" % rt.name, at, "%s: as many as the value has fields" % rt.name)


def fill_events(rt, ev, fi, fam):
    """writes and marks of the value on top of the stack, also those made by other public operations"""
    E = ev.events(fi)
    out = {b: [x for x in xs if x[0] in ("W", "M") and on_stack(x[1])] for b, xs in E.items()}
    g = fam.g
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        f = g.fnval(t) if t[0] == "call" else None
        c = rt.prog.callee(f, g.blocks[bi]["fn"].crate) if f is not None else None
        if c is not None and poly.self_ty(c) == WIP and c.id != rt.fn.id and fills(rt.prog, c):
            out[bi] = [("W",), ("M",)]
    return out


def fills(prog, c):
    """does the operation, when it succeeds, leave the value on top of the stack initialized?"""
    memo = prog.__dict__.setdefault("_fills", {})
    if c.id not in memo:
        memo[c.id] = False
        if c.body is not None and not prog.reads_only(c):
            rt = prog.root(c)
            ev = Ev(rt)
            evs = fill_events(rt, ev, 0, rt.fams[0])
            if evs:
                outs = rt.outcomes(rt.fams[0], empty_top(ev, rt.fams[0]), auto=("", evs, fill_step))
                memo[c.id] = bool(outs) and all(s_ == "s" for s_, v in outs if ok(v))
    return memo[c.id]


def fill_step(s_, x, b):
    if x[0] == "W":
        return "w"
    if x[0] == "M":
        return "s" if s_ == "w" else s_
    return s_


def empty_top(ev, fam):
    def assume(kind, a):
        if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("has", "are_all_set", "is_any_set") and a[1]:
            k = ev.state(fam, a[1][0], "fields")
            if on_stack(k):
                return 0
        return View(ev).base(fam, kind, a)
    return assume


def filled(rt, ev, fi, fam, r):
    """elements and keys are only made for a container that is initialized"""
    g = fam.g
    for f2, bi, ty, v, line in aggs(rt, {FRAME}):
        st = bare(v["istate"])
        if f2 is not fam or st[0] != "agg" or st[1][1] != ISTATE:
            continue
        m = mode_const(dict(zip(st[1][3], st[2]))["mode"])
        if m not in ("ListElement", "MapKey"):
            continue
        evs = fill_events(rt, ev, fi, fam)
        evs[bi] = evs.get(bi, []) + [("new",)]
        bad = []

        def step(s_, x, b):
            if x[0] == "new" and s_ != "s":
                bad.append(b)
            return fill_step(s_, x, b)
        rt.outcomes(fam, empty_top(ev, fam), auto=("", evs, step))
        r.count("containers filled")
        r.check(not bad, rt.name + ":container", "%s goes on to fill a container that isn't initialized" % rt.name, g.where(bi, line), "%s: the container is initialized first" % rt.name)


def recorded(rt, ev, fi, fam, r):
    """a whole enum that is marked initialized has its variant recorded"""
    g = fam.g
    E = ev.events(fi)
    V = View(ev)
    for K in {x[1] for xs in E.values() for x in xs if x[0] == "=fields" and not cleared(rt, x[2])}:
        evs = {b: [x for x in xs if x[0] in ("=fields", "=variant", "=istate", "T") and x[1] == K] for b, xs in E.items()}

        def step(s_, x, b):
            if x[0] == "=fields":
                return s_ - {"f"} if cleared(rt, x[2]) else s_ | {"f"}
            if x[0] == "=variant":
                return s_ - {"v"} if no_variant(x[2]) else s_ | {"v"}
            return frozenset()
        outs = rt.outcomes(fam, V.with_def(fam, K, rt.prog.defs["Enum"]), auto=(frozenset(), evs, step))
        r.check(not any(s_ == {"f"} and ok(v) for s_, v in outs), rt.name + ":enum:variant", "%s marks an enum initialized without recording which variant it is" % rt.name, rt.at,
                "%s: an enum put whole has its variant recorded" % rt.name)


def depths(rt, r):
    """bookkeeping records the depth its frame has on the stack: 0 is the root"""
    for fam, bi, ty, v, line in aggs(rt, {FRAME}):
        st = bare(v["istate"])
        if st[0] != "agg" or st[1][1] != ISTATE:
            continue
        fs = dict(zip(st[1][3], st[2]))
        m = mode_const(fs["mode"])
        c = const(fs["depth"])
        at = fam.g.where(bi, line)
        r.count("frames given a depth")
        dp = bare(fs["depth"])
        if m == "Root":
            good = c is not None and str(c.get("bits")) == "0"
        elif fld(dp, "depth") is not None:
            good = True
        else:
            good = dp[0] == "call" and item_of(dp[1]) == "len" and frames_of(dp[2][0]) is not None
        r.check(good, rt.name + ":depth", "%s gives a frame another depth than it has on the stack" % rt.name, at, "%s: depth is the stack's height" % rt.name)
        r.check(cleared(rt, fs["fields"]) and no_variant(fs["variant"]), rt.name + ":fresh", "%s makes a new frame that counts as initialized already" % rt.name, at,
                "%s: a new frame is not initialized" % rt.name)


def builds(rt, ev, fi, fam, r):
    """a value is only handed out when everything in it is initialized and its invariants hold"""
    g = fam.g
    E = ev.events(fi)
    V = View(ev)
    done = {bi for f2, bi, ty, v, line in aggs(rt, {HEAP}) if f2 is fam and bare(v["shape"])[0] != "p"}
    tests = {}
    for b, xs in E.items():
        for x in xs:
            if x[0] == "?are_all_set" and x[1][0] == "own" and x[1][1][0] == "e":
                X = fld(fld(x[2][0], "fields") or ("?",), "istate")
                y = bare(X) if X is not None else ("?",)
                if y[0] == "." and y[4] == "Some" and bare(y[1])[0] == "call" and item_of(bare(y[1])[1]) in ("pop", "pop_front", "pop_back", "next"):
                    tests[bare(y[1])[3]] = (x[1], X)
    if not done or not tests:
        return False
    D = rt.prog.defs
    for pb, (K, X) in tests.items():
        r.count("completeness walks")
        at = g.where(pb)

        def moved(kind, a):
            if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("contains", "intersects") and len(a[1]) == 2 and fkind(a[1][1]) == "MOVED" and \
                    fld(fld(a[1][0], "flags") or ("?",), "istate") is not None and ev.key(fam, fld(fld(a[1][0], "flags"), "istate")) == K:
                return 0
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] == pb:
                    return 1
            return None
        start = [s for s in g.succs(pb) if s is not None][0]

        def escapes(*assumes):
            vis = set()
            rt.outcomes(fam, both(moved, *assumes), vis, start=start, stop={pb})
            # going on with the next one, or handing the value out
            return bool(vis & done) or any(pb in g.succs(b) for b in vis)
        for n, d in D.items():
            r.check(not escapes(V.with_def(fam, K, d), V.init(fam, K, False)), rt.name + ":complete:" + n,
                    "%s goes on when a %s value isn't initialized" % (rt.name, n.lower()), at, "%s: a %s value that isn't initialized is an error" % (rt.name, n.lower()))
        def no_var(kind, a):
            if kind == "discr" and ev.state(fam, a[0], "variant") == K:
                return 0
            if kind == "call" and V.iset(fam, a[0], a[1], K, "are_all_set"):
                return 1
            return None
        r.check(not escapes(V.with_def(fam, K, D["Enum"]), no_var), rt.name + ":complete:variant", "%s goes on when an enum has no variant selected" % rt.name, at,
                "%s: an enum without a variant is an error" % rt.name)
        children(rt, ev, V, fam, E, pb, K, start, both(moved, V.init(fam, K, True)), done, r)
    # the root
    def noroot(kind, a):
        if kind == "eq":
            for u, w in (a, a[::-1]):
                c = const(w)
                if fld(u, "depth") is not None and c is not None and str(c.get("bits")) == "0":
                    return False
        if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("find", "position", "find_map") and len(a[1]) == 2:
            for f2 in rt.fams:
                if f2.at and f2.at[0] is fam and f2.at[1] == a[2] and {o for _, o in rt.outcomes(f2, noroot)} == {0}:
                    return ("v", "None", 0)
        return V.base(fam, kind, a)
    r.check(not (rt.reach(fam, noroot) & done), rt.name + ":root", "%s hands out a value that isn't the one it was created for" % rt.name, rt.at, "%s: the value at depth 0" % rt.name)
    # invariants
    calls_ = [bi for f2, bi, fe, args in calls(rt) if f2 is fam and not isinstance(fe, dict) and slot(fe) and slot(fe)[2] == "invariants"]
    r.check(bool(calls_), rt.name + ":invariants", "%s doesn't check the value's invariants" % rt.name, rt.at)

    def inv(v):
        def assume(kind, a):
            if kind == "call" and not isinstance(a[0], dict):
                s = slot(a[0])
                if s and s[2] == "invariants":
                    return v
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "." and x[3] == "invariants":
                    return 1
            return V.base(fam, kind, a)
        return assume
    r.check(not (rt.reach(fam, inv(0)) & done), rt.name + ":invariants:false", "%s hands out a value whose invariants don't hold" % rt.name, rt.at,
            "%s: only values whose invariants hold" % rt.name)
    vis = set()
    rt.outcomes(fam, inv(1), vis, stop=set(calls_))
    r.check(not (vis & done), rt.name + ":invariants:skipped", "%s can skip the invariants of the value" % rt.name, rt.at)
    vis = rt.reach(fam, inv(1))
    r.check(bool(vis & done), rt.name + ":some", "%s never hands out a value" % rt.name, rt.at)
    return True


def children(rt, ev, V, fam, E, pb, K, start, given, done, r):
    """every field whose bookkeeping is kept is looked at too"""
    g = fam.g
    D = rt.prog.defs
    gets = {b for b, xs in E.items() for x in xs if x[0] in ("Sget", "Sremove")}
    for n in ("Struct", "Enum"):
        loops = set()
        for bi in g.reachable():
            t = g.blocks[bi]["t"]
            if t[0] == "call" and item_of(g.fnval(t)) == "next" and t[2]:
                s = poly.iter_src(fam.res(g.expr(t[2][0])))
                if s is not None and own_fields(rt, K, s[0]):
                    loops.add(bi)

        def assume(kind, a):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] in loops:
                    return 1
                if x[0] == "call" and x[3] in gets:
                    return 1
            return None
        asm = both(assume, V.with_def(fam, K, D[n]), given)
        vis = set()
        rt.outcomes(fam, asm, vis, start=start, stop={pb})
        out = bool(vis & done) or any(pb in g.succs(b) for b in vis)
        r.check(bool(vis & loops) and not out, rt.name + ":children:" + n, "%s doesn't look at every field of a%s" % (rt.name, "n enum" if n == "Enum" else " struct"), g.where(pb),
                "%s: every field of a %s is looked at" % (rt.name, n.lower()))
        bad = []
        evs = {}
        for bi in vis:
            t = g.blocks[bi]["t"]
            if bi in gets:
                evs[bi] = ["get"]
            elif bi in loops:
                evs[bi] = ["next"]
            elif t[0] == "call" and item_of(g.fnval(t)) in ("push", "push_back", "insert"):
                evs[bi] = ["push"]

        def step(st, x, bi):
            if x == "next":
                if st in ("got", "next"):
                    bad.append(bi)
                return "next"
            if x == "get":
                return "got" if st == "next" else st
            return "" if st == "got" else st
        rt.outcomes(fam, asm, start=start, stop={pb}, auto=("", evs, step))
        r.check(not bad, rt.name + ":children:push:" + n, "%s can leave out a field of a%s that it keeps track of" % (rt.name, "n enum" if n == "Enum" else " struct"),
                g.where(bad[0]) if bad else g.where(pb), "%s: every tracked field is checked in turn" % rt.name)
