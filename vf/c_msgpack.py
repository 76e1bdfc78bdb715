"""MessagePack: what is written is the value, what is read is what was written."""
import re
from . import flow, vt
from .absint import Interp, State, Undecided, INTS, K, add, atom, is_lin, mul, num, bits_of
from .poly import item_of
from .vt import fname

CR = "facet_msgpack"


def policy(c, fn):
    if c.id.split("::")[-1] in ("from_ref",):
        return False
    return c.crate.name == CR or (c.crate.name in ("core", "alloc", "std") and len(c.body["blocks"]) < 12)


def program(fx):
    p = flow.PolyProgram(fx, ["facet_core", "facet_reflect", CR])
    p.defs = {v["name"]: i for i, v in enumerate(next(a for a in fx.crate("facet_core").d["adts"] if a["id"].endswith("::Def"))["variants"])}
    return p


def fn(p, end):
    return next((f for f in p.fns.values() if f.crate.name == CR and f.body and f.id.endswith(end)), None)


CMP = ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")


def consts(x, out):
    if isinstance(x, dict):
        if "bits" in x:
            out.add(int(x["bits"]))
    elif isinstance(x, (list, tuple)):
        for v in x:
            consts(v, out)


def ints_in(body, out):
    """every integer constant a body compares with, or calls something with"""
    for b in body["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in CMP:
                consts(s[2][2:], out)
        t = b["t"]
        if t[0] == "switch":
            out |= {int(w) for w, _ in t[2]}
        if t[0] == "call":
            consts(t[2], out)


def cuts(p, fns, t):
    """the values of a type cut where the code compares, and where the sizes of the formats change"""
    c = set()
    for f in fns:
        ints_in(f.body, c)
        for pr in f.promoted or []:
            for b in pr["blocks"]:
                consts(b["s"], c)
                consts(b["t"], c)
    lo, hi = INTS[t]
    pts = {lo, hi + 1}
    for b in (5, 7, 8, 15, 16, 31, 32, 63, 64):
        c |= {-(1 << b) - 1, (1 << b) - 1}
    c.add(-1)
    for x in list(c):
        for w in (8, 16, 32, 64):
            if 1 << (w - 1) <= x < 1 << w:
                c.add(x - (1 << w))
    for x in c:
        for d in (0, 1):
            if lo < x + d <= hi:
                pts.add(x + d)
    if t == "usize":
        pts = {x for x in pts if x < 1 << 63} | {1 << 63}
    s = sorted(pts)
    return [(a, b - 1) for a, b in zip(s, s[1:])]


def targ(it, bi, f, i=0):
    """the i-th type argument of a call"""
    b = it.g.blocks[bi]
    a = f.get("args") or []
    return it.g.tyname(f.get("_cr") or b["fn"].crate, a[i], f.get("_fr", b["fr"])) if i < len(a) and isinstance(a[i], int) else ""


SHORT = {"std::string::String": "String", "alloc::string::String": "String"}


class Enc(Interp):
    """writing one value of one type"""

    def __init__(self, g, defs, T, ranges, kind="Scalar"):
        Interp.__init__(self, g, ranges)
        self.T, self.defs, self.kind = T, defs, kind

    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return self.params.get(root) or ("sym", ("arg", root))
        return Interp.initial(self, root)

    params = {}

    def value(self):
        if self.T in INTS:
            return atom(("s", self.T, "value"))
        if self.T == "bool":
            return self.boolean
        return ("sym", "string")

    def discr(self, st, v):
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1] and v[1][0] == "f" and v[1][-1] == "def":
            return K(self.defs[self.kind])
        return Interp.discr(self, st, v)

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        if it == "is_type":
            return [(st, SHORT.get(targ(self, bi, f), targ(self, bi, f)) == self.T)]
        if it == "get" and "Peek" in nm:
            if SHORT.get(targ(self, bi, f), targ(self, bi, f)) == self.T:
                return [(st, self.okv(("refv", self.value())))]
            return [(st, self.errv(("sym", "another type")))]
        if it in ("as_bytes", "deref", "as_str", "as_ref", "borrow", "into_bytes", "as_slice") and isinstance(D[0], tuple) and D[0][0] == "sym" and (D[0][1] == "string" or isinstance(D[0][1], tuple) and D[0][1][0] == "f" and D[0][1][-1] == "name"):
            return [(st, D[0])]
        if it in ("write_all", "extend_from_slice") and len(args) == 2:
            a = st.copy()
            a.event("write", D[1])
            if it != "write_all":
                return [(a, ("agg", "tuple", 0, ()))]
            b = st.copy()
            b.conds["io"] = True
            return [(a, self.okv(("agg", "tuple", 0, ()))), (b, self.errv(("sym", "io")))]
        if it == "push" and len(args) == 2 and "Vec" in nm:
            a = st.copy()
            a.event("write", ("agg", "array", 0, (D[1],)))
            return [(a, ("agg", "tuple", 0, ()))]
        if it == "into_struct":
            return [(st, self.okv(("sym", ("struct",))))]
        if it == "fields" and "PeekStruct" in nm:
            return [(st, ("sym", ("fields",)))]
        if it in ("into_iter", "by_ref") and D[0] == ("sym", ("fields",)):
            return [(st, D[0])]
        if it == "field_count" and "PeekStruct" in nm:
            return [(st, atom(("s", "usize", "fields")))]
        if it == "len" and isinstance(D[0], tuple) and D[0][0] == "sym" and isinstance(D[0][1], tuple) and D[0][1][0] == "f" and D[0][1][-1] == "fields":
            return [(st, atom(("s", "usize", "fields")))]
        if it == "next" and D[0] == ("sym", ("fields",)):
            a = st.copy()
            a.event("field")
            n = ("field", self.new())
            return [(a, self.some(("agg", "tuple", 0, (("sym", n), ("sym", ("peek",) + n))))), (self.ended(st), self.NONE)]
        if it == "serialize":
            a = st.copy()
            a.event("value", D[0])
            b = st.copy()
            b.conds["io"] = True
            return [(a, self.okv(("agg", "tuple", 0, ()))), (b, self.errv(("sym", "io")))]
        return None

    def unknown(self, old, t):
        return old if old == ("sym", ("fields",)) else Interp.unknown(self, old, t)

    def ended(self, st):
        st = st.copy()
        st.event("end")
        return st

    def length(self, st, v):
        v = self.deref(st, v)
        if v[0] == "sym" and (v[1] == "string" or isinstance(v[1], tuple) and v[1][0] == "f" and v[1][-1] == "name"):
            return atom(("s", "usize", "length"))
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "f" and v[1][-1] == "fields":
            return atom(("s", "usize", "fields"))
        return Interp.length(self, st, v)


def flat(it, st, v):
    """what a written value is made of: bytes, or a string's own"""
    v = it.deref(st, v)
    bs = it.bytes_of(st, v, None) if isinstance(v, tuple) else None
    if bs is not None:
        return bs
    if isinstance(v, tuple) and v[0] == "str":
        return [K(x) for x in v[1].encode()]
    return [("text", v)]


def read(it, bs):
    """the item the bytes begin with: (kind, value, bytes used) or None"""
    if not bs or not is_lin(bs[0]):
        return None
    lo, hi = it.rng(bs[0])
    if lo is None or hi is None:
        return None

    def be(n, at=1):
        if len(bs) < at + n or not all(is_lin(x) for x in bs[at:at + n]):
            return None
        return bs[at:at + n]
    for a, b, kind, base in ((0, 0x7f, "int", 0), (0xe0, 0xff, "int", 256), (0x80, 0x8f, "map", 0x80), (0x90, 0x9f, "array", 0x90), (0xa0, 0xbf, "str", 0xa0)):
        if a <= lo and hi <= b:
            return kind, add(bs[0], K(-base)), 1
    if lo != hi:
        return None
    for c, kind, n in ((0xcc, "uint", 1), (0xcd, "uint", 2), (0xce, "uint", 4), (0xcf, "uint", 8), (0xd0, "sint", 1), (0xd1, "sint", 2), (0xd2, "sint", 4), (0xd3, "sint", 8),
                       (0xd9, "str", 1), (0xda, "str", 2), (0xdb, "str", 4), (0xde, "map", 2), (0xdf, "map", 4), (0xdc, "array", 2), (0xdd, "array", 4)):
        if lo == c:
            x = be(n)
            return (kind, x, 1 + n) if x is not None else None
    if lo in (0xc2, 0xc3):
        return "bool", lo == 0xc3, 1
    if lo == 0xc0:
        return "nil", None, 1
    return None


def same(it, kind, got, want):
    """the item's number is the wanted one, everywhere in the range"""
    if not isinstance(got, list):
        return got == want
    lo, hi = it.rng(want)
    t = ("i" if kind == "sint" else "u") + str(8 * len(got))
    if lo is None or hi is None or lo < INTS[t][0] or hi > INTS[t][1]:
        return False
    return all(g == it.byte(want, len(got) - 1 - i) for i, g in enumerate(got))


def text(it, bs, name, kind="str"):
    """a string item with exactly the named string's bytes: how many pieces it takes"""
    x = read(it, bs)
    if x is None or x[0] != kind or not same(it, "uint", x[1], atom(("s", "usize", "length"))):
        return None
    n = x[2]
    if len(bs) > n and isinstance(bs[n], tuple) and bs[n][0] == "text" and name(bs[n][1]):
        return n + 1
    return None


def okret(v):
    """1: Ok, 0: Err, None: either"""
    if isinstance(v, tuple) and v[0] == "agg" and v[1].endswith("Result"):
        return 1 if v[2] == 0 else 0
    return None


def c21(fx, r):
    """what the writer writes is the value"""
    p = program(fx)
    r.rule("for every scalar type the writer takes, the values are cut where the code compares and where a format begins or ends; "
           "on every path of every piece the bytes written are one MessagePack item that stands for the value")
    f = fn(p, "::serialize")
    if not r.check(f is not None, "serialize:exists", "the MessagePack writer's serialize is no longer there to decide"):
        return
    g = flow.Graph(p, f, policy, cap=20000)
    inl = {f} | {p.fns[k] for k in p.fns if p.fns[k].crate.name == CR and p.fns[k].body and "to_msgpack" in p.fns[k].id}
    types = []
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        fv = g.fnval(t) if t[0] == "call" else None
        if isinstance(fv, dict) and item_of(fv) in ("get", "is_type"):
            it = Interp(g)
            ty = targ(it, bi, fv)
            ty = SHORT.get(ty, ty)
            if ty not in types:
                types.append(ty)
    at = "%s" % f.id

    def go(T, what, rng, kind="Scalar", boolean=None, judge=None):
        it = Enc(g, p.defs, T, rng, kind)
        it.boolean = boolean
        it.params = {g.argl[0]: ("sym", "peek"), g.argl[1]: ("sym", "writer")}
        try:
            outs = it.run()
        except Undecided as e:
            r.bad("undecided:%s:%s" % (T, what), "what is written for a %s can no longer be decided: %s" % (T, e), at)
            return
        done = 0
        for k, v, st, bi in outs:
            if k == "panic":
                r.bad("%s:panic" % T, "writing a %s (%s) panics: %s" % (T, what, v if isinstance(v, str) else v[0]), g.where(bi))
                continue
            if k == "loop" or okret(v) == 0:
                if okret(v) == 0 and "io" not in st.conds:
                    judge(it, None, v, st)
                continue
            done += 1
            bs = []
            for e in st.events:
                if e[0] == "write":
                    bs += flat(it, st, e[1])
                elif e[0] != "enter":
                    bs.append(e)
            judge(it, bs, v, st)
        return done

    for T in types:
        if T in INTS:
            r.count("scalar types")
            for lo, hi in cuts(p, inl, T):
                r.count("value ranges")

                def judge(it, bs, v, st):
                    w = atom(("s", T, "value"))
                    x = read(it, bs) if bs is not None else None
                    ok = x is not None and x[0] in ("int", "uint", "sint") and x[2] == len(bs) and same(it, x[0], x[1], w)
                    r.check(ok, "%s:%d..%d" % (T, lo, hi), "a %s between %d and %d is %s" % (T, lo, hi, "refused" if bs is None else "written as " + show(bs)), at,
                            "%s %d..%d: %s" % (T, lo, hi, x and x[0]))
                n = go(T, "%d..%d" % (lo, hi), {("s", T, "value"): (lo, hi)}, judge=judge)
                r.check(n, "%s:%d..%d:written" % (T, lo, hi), "a %s between %d and %d is never written" % (T, lo, hi), at)
        elif T == "bool":
            r.count("scalar types")
            for b in (False, True):
                r.count("value ranges")

                def judge(it, bs, v, st):
                    r.check(bs is not None and len(bs) == 1 and num(bs[0]) == (0xc3 if b else 0xc2), "bool:%s" % b, "%s is written as %s" % (b, show(bs)), at, "bool %s" % b)
                n = go(T, str(b), {}, boolean=b, judge=judge)
                r.check(n, "bool:%s:written" % b, "%s is never written" % b, at)
        elif T == "String":
            r.count("scalar types")
            for lo, hi in cuts(p, inl, "usize"):
                r.count("value ranges")

                def judge(it, bs, v, st):
                    if bs is None:
                        r.check(lo > 0xffffffff, "String:%d..%d" % (lo, hi), "a string of %d to %d bytes is refused" % (lo, hi), at)
                        return
                    n = text(it, bs, lambda s: s == ("sym", "string"))
                    r.check(n == len(bs), "String:%d..%d" % (lo, hi), "a string of %d to %d bytes is written as %s" % (lo, hi, show(bs)), at, "String of %d..%d bytes" % (lo, hi))
                n = go(T, "%d..%d bytes" % (lo, hi), {("s", "usize", "length"): (lo, hi)}, judge=judge)
                r.check(n or lo > 0xffffffff, "String:%d..%d:written" % (lo, hi), "a string of %d to %d bytes is never written" % (lo, hi), at)
        else:
            r.bad("type:" + T, "the writer takes %s, and there is no rule for what it must write for it" % T, at)
    # structs
    for lo, hi in cuts(p, inl, "usize"):
        r.count("map lengths")

        def judge(it, bs, v, st):
            if bs is None:
                r.check(lo > 0xffffffff, "struct:%d..%d" % (lo, hi), "a struct of %d to %d fields is refused" % (lo, hi), at)
                return
            why = struct_bytes(it, bs)
            r.check(why is None, "struct:%d..%d" % (lo, hi), "a struct of %d to %d fields: %s" % (lo, hi, why), at, "struct of %d..%d fields" % (lo, hi))
        n = go("a struct", "%d..%d fields" % (lo, hi), {("s", "usize", "fields"): (lo, hi), ("s", "usize", "length"): (0, 31)}, "Struct", judge=judge)
        r.check(n or lo > 0xffffffff, "struct:%d..%d:written" % (lo, hi), "a struct of %d to %d fields is never written" % (lo, hi), at)
    for lo, hi in cuts(p, inl, "usize"):
        r.count("name lengths")
        looped = []

        def judge(it, bs, v, st):
            pass
        it = Enc(g, p.defs, "a struct", {("s", "usize", "fields"): (3, 3), ("s", "usize", "length"): (lo, hi)}, "Struct")
        it.params = {g.argl[0]: ("sym", "peek"), g.argl[1]: ("sym", "writer")}
        for k, v, st, bi in it.run():
            if k != "loop":
                continue
            looped.append(1)
            bs = []
            for e in st.events:
                bs += flat(it, st, e[1]) if e[0] == "write" else [e]
            i = max((j for j, e in enumerate(bs) if e == ("field",)), default=None)
            why = "a turn of the loop takes no field"
            if i is not None:
                why = field_bytes(it, bs[i + 1:])
            r.check(why is None, "field:%d..%d" % (lo, hi), "a field with a name of %d to %d bytes: %s" % (lo, hi, why), at, "field name of %d..%d bytes" % (lo, hi))
        r.check(looped or lo > 0xffffffff, "field:%d..%d:written" % (lo, hi), "no field with a name of %d to %d bytes is written" % (lo, hi), at)
    # the whole
    f = fn(p, "::to_vec")
    if r.check(f is not None, "to_vec:exists", "to_vec is no longer there to decide"):
        g2 = flow.Graph(p, f, lambda c, x: policy(c, x) and not c.id.endswith("::serialize"), cap=20000)
        it = ToVec(g2)
        n = 0
        for k, v, st, bi in it.run():
            if k == "ret":
                n += 1
                ev = [e for e in st.events]
                r.check(len(ev) == 1 and ev[0][0] == "serialize" and it.new_vec(ev[0][2]) and it.name(v) == it.name(ev[0][2]) and "Peek" in repr(ev[0][1]),
                        "to_vec", "to_vec doesn't return just what was written for its value: %s" % (ev,), f.id, "to_vec: an empty buffer, written to once, returned")
        r.check(n, "to_vec:returns", "to_vec never returns", f.id)
    r.floor("scalar types", 10)
    r.floor("value ranges", 150)


class ToVec(Interp):
    def call(self, st, bi, f, args, t, dt):
        it, nm = item_of(f), fname(f)
        if it in ("new", "with_capacity") and "Vec" in nm:
            return [(st, ("sym", ("vec", bi)))]
        if it == "new" and "Peek" in nm:
            return [(st, ("sym", ("Peek", args[0])))]
        if it == "serialize":
            D = [self.deref(st, a) for a in args]
            a = st.copy()
            a.event("serialize", D[0], D[1])
            return [(a, self.okv(("agg", "tuple", 0, ())))]
        return None

    def new_vec(self, v):
        return isinstance(v, tuple) and v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "vec"


def field_bytes(it, bs):
    """a field: its name, then its value"""
    fld = None
    if bs and isinstance(bs[-1], tuple) and bs[-1][0] == "value":
        k = it.name(bs[-1][1])
        if isinstance(k, tuple) and k[0] == "peek":
            fld = k[1:]
    if fld is None:
        return "its value isn't written last: " + show(bs)
    n = text(it, bs, lambda s: s[0] == "sym" and isinstance(s[1], tuple) and s[1][0] == "f" and s[1][-1] == "name" and fld_of(it, s[1][1]) == fld)
    if n is None or n != len(bs) - 1:
        return "what is written before its value is not its name: " + show(bs)
    return None


def fld_of(it, k):
    k = it.name(k)
    while isinstance(k, tuple) and k and k[0] in ("*", "sym"):
        k = k[1]
    return k


def struct_bytes(it, bs):
    """a map of as many pairs as there are fields, then every field"""
    x = read(it, bs)
    if x is None or x[0] != "map" or not same(it, "uint", x[1], atom(("s", "usize", "fields"))):
        return "it doesn't begin with a map of that many pairs: " + show(bs)
    rest = bs[x[2]:]
    if not rest or rest[-1] != ("end",):
        return "writing ends before its fields do: " + show(rest)
    if len(rest) == 1:
        return None
    if ("field",) in rest[:-1]:
        return "a field is taken outside a loop: " + show(rest)
    return "more is written than its fields: " + show(rest)


def show(bs):
    out = []
    for b in bs or []:
        if is_lin(b):
            out.append("%#04x" % num(b) if num(b) is not None else lin_text(b))
        elif isinstance(b, tuple) and b[0] == "text":
            out.append("<text>")
        else:
            out.append("<%s>" % (b[0] if isinstance(b, tuple) else b))
    return " ".join(out)[:300] or "nothing"


def lin_text(v):
    def a(x):
        if x[0] == "s":
            return str(x[2])
        if x[0] == "byte":
            return "byte %s of %s" % (x[2], lin_text(x[1]) if is_lin(x[1]) else x[1])
        if x[0] == "wrap":
            return "(%s as %s)" % (lin_text(x[1]), x[2])
        return repr(x)[:60]
    s = "+".join(("" if k == 1 else "%d*" % k) + a(x) for x, k in v[2])
    return s + ("%+d" % v[1] if v[1] else "")


# ------------------------------------------------------------------------------------------------ reading

def recursive(p):
    """the functions that read one item and call themselves to: {id: 'read' | 'skip'}"""
    fs = {f.id: f for f in p.fns.values() if f.crate.name == CR and f.body and "from_msgpack" in f.id and "{closure" not in f.id}
    calls = {}
    for i, f in fs.items():
        calls[i] = set()
        for b in f.body["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("fn"), dict):
                calls[i].add(vt.fdef(t[1][1]["fn"]))

    def reaches(a, goal, seen):
        for c in calls.get(a, ()):
            if c == goal or c not in seen and (seen.add(c) or reaches(c, goal, seen)):
                return True
        return False
    out = {}
    for i, f in fs.items():
        # what is only called from the functions it calls itself is part of them
        outside = [j for j in fs if i in calls[j] and not reaches(i, j, set())]
        if reaches(i, i, set()) and outside:
            tys = [f.crate.ts(t) for t in f.body["locals"][1:1 + f.body["argc"]]]
            ints = [t for t in tys if t in INTS]
            if not ints:
                out[i] = "read" if any("Wip" in t for t in tys) else "skip"
    return out


OFF = atom(("s", "usize", "offset"))
LEN = atom(("s", "usize", "input"))


class Dec(Interp):
    """reading one item, whose first byte lies in a range"""

    def __init__(self, g, p, rec, T, first, kind="Scalar", key=(0xa1, 0xa1)):
        Interp.__init__(self, g, {OFF[2][0][0]: (0, (1 << 63) - 1), LEN[2][0][0]: (0, (1 << 63) - 1)})
        self.p, self.rec, self.T, self.first, self.kind, self.key = p, rec, T, first, kind, key
        self.params = {}

    def arng(self, a):
        if a[0] == "byte" and isinstance(a[1], tuple) and a[1][0] == "in":
            o = a[1][1]
            if o == OFF:
                return self.first
            if not o[1] and len(o[2]) == 1 and o[2][0][1] == 1:
                return self.key
        return Interp.arng(self, a)

    def start(self):
        st = State()
        st.facts = (add(LEN, OFF, -1),)
        d = self.p.decoder
        vals = [None] * len(d)
        for i, k in enumerate(d):
            vals[i] = ("sl", "in", K(0), LEN) if k == "input" else OFF if k == "offset" else ("sym", ("state", i))
        st.mem["decoder"] = ("agg", "Decoder", 0, tuple(vals))
        return st

    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return self.params.get(root) or ("sym", ("arg", root))
        return Interp.initial(self, root)

    def offset(self, st):
        return st.mem["decoder"][3][self.p.decoder.index("offset")]

    def seto(self, st, v):
        d = st.mem["decoder"]
        vals = list(d[3])
        vals[self.p.decoder.index("offset")] = v
        st.mem["decoder"] = (d[0], d[1], d[2], tuple(vals))

    def also(self, st, head):
        self.seto(st, self.unknown(self.offset(st), "usize"))

    def invariants(self, st, head, info):
        o = self.offset(st)
        self.ranges[o[2][0][0]] = (0, (1 << 63) - 1)
        for root, path, first, now in info:
            if root == "decoder":
                if self.holds(st, add(LEN, first, -1)) is not True:
                    self.outs.append(("panic", "a loop begins past the end of the input", st, head))
                st.facts = st.facts + (add(LEN, now, -1),)

    def again(self, st, bi):
        if self.holds(st, add(LEN, self.offset(st), -1)) is not True:
            self.outs.append(("panic", "a loop goes past the end of the input", st, bi))
        return Interp.again(self, st, bi)

    def discr(self, st, v):
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1] and v[1][0] == "f" and v[1][-1] == "def":
            return K(self.p.defs[self.kind])
        return Interp.discr(self, st, v)

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        d = vt.fdef(f)
        if d in self.rec:
            o = self.offset(st)
            a, b = st.copy(), st.copy()
            new = atom(("after", o, self.new()))
            self.ranges[new[2][0][0]] = (1, (1 << 63) - 1)
            a.facts = a.facts + (add(add(new, o, -1), K(-1)), add(LEN, new, -1))
            w = next((x for x in D if isinstance(x, tuple) and x[0] == "sym" and x[1] and isinstance(x[1], tuple) and x[1][0] in ("wip", "frame")), None)
            a.event("item", self.rec[d], o, w)
            self.seto(a, new)
            b.conds["nested"] = True
            return [(a, self.okv(w if w is not None else ("agg", "tuple", 0, ()))), (b, self.errv(("sym", ("nested",))))]
        if it == "is_type" or it == "current_is_type":
            ty = targ(self, bi, f)
            return [(st, SHORT.get(ty, ty) == self.T)]
        if it in ("put", "try_put") and "Wip" in nm:
            ty = targ(self, bi, f)
            if SHORT.get(ty, ty) != self.T:
                return [(st, self.errv(("sym", "another type")))]
            a = st.copy()
            a.event("put", D[1])
            return [(a, self.okv(args[0]))]
        if it == "field_index":
            a, b = st.copy(), st.copy()
            n = ("index", self.new())
            a.event("lookup", D[1], n)
            b.event("lookup", D[1], None)
            return [(a, self.some(("sym", n))), (b, self.NONE)]
        if it in ("field", "field_named") and "Wip" in nm:
            a = st.copy()
            a.event(it, D[1])
            n = ("frame", D[1], D[0])
            if it == "field":
                return [(a, self.okv(("sym", n)))]
            b = st.copy()
            b.event("lookup", D[1], None)
            return [(a, self.okv(("sym", n))), (b, self.errv(("sym", "no such field")))]
        if it == "pop" and "Wip" in nm and D[0][0] == "sym" and isinstance(D[0][1], tuple) and D[0][1][0] == "frame":
            a = st.copy()
            a.event("pop")
            return [(a, self.okv(D[0][1][2]))]
        if it == "from_utf8" and isinstance(D[0], tuple) and D[0][0] == "sl":
            b = st.copy()
            b.conds["utf8"] = True
            return [(st, self.okv(D[0])), (b, self.errv(("sym", ("utf8",))))]
        if it in ("to_string", "to_owned", "into", "from", "into_owned", "to_vec", "into_string", "into_boxed_str", "as_str", "as_ref", "deref", "as_bytes") and D and isinstance(D[0], tuple) and D[0][0] == "sl":
            return [(st, D[0])]
        return None


def family(lo, hi):
    """what a first byte announces: (kind, format, base or size) for a range of first bytes"""
    for a, b, kind, base in ((0, 0x7f, "uint", 0), (0xe0, 0xff, "sint", 256), (0x80, 0x8f, "map", 0x80), (0x90, 0x9f, "array", 0x90), (0xa0, 0xbf, "str", 0xa0)):
        if a <= lo and hi <= b:
            return kind, "fix", base
        if not (hi < a or lo > b):
            return None
    if lo != hi:
        return None
    return HEADS.get(lo)


HEADS = {0xc0: ("nil", "none", 0), 0xc2: ("bool", "none", False), 0xc3: ("bool", "none", True),
         0xca: ("float", "size", 4), 0xcb: ("float", "size", 8)}
for _i in range(4):
    HEADS[0xcc + _i] = ("uint", "num", 1 << _i)
    HEADS[0xd0 + _i] = ("sint", "num", 1 << _i)
for _i in range(3):
    HEADS[0xd9 + _i] = ("str", "len", 1 << _i)
    HEADS[0xc4 + _i] = ("bin", "len", 1 << _i)
    HEADS[0xc7 + _i] = ("ext", "len", 1 << _i)
for _i in range(2):
    HEADS[0xdc + _i] = ("array", "len", 2 << _i)
    HEADS[0xde + _i] = ("map", "len", 2 << _i)
for _i in range(5):
    HEADS[0xd4 + _i] = ("ext", "size", 1 + (1 << _i))


def inb(o, i=0):
    return atom(("byte", ("in", add(o, K(i))), 0))


def beat(it, o, n):
    return it.be([inb(o, i) for i in range(n)])


def denotes(it, st, fam, o):
    """(value or count, bytes of the header) of the item at o"""
    kind, form, x = fam
    it.cur = st
    if form == "fix":
        return add(inb(o), K(-x)), 1
    if form == "num":
        v = beat(it, add(o, K(1)), x)
        return (it.wrapto(v, "i%d" % (8 * x)) if kind == "sint" else v), 1 + x
    if form == "len":
        return beat(it, add(o, K(1)), x), 1 + x
    return x, 1


TAKES = {"String": ("str",), "bool": ("bool",)}
for _t in INTS:
    TAKES[_t] = ("uint",) if _t[0] == "u" else ("uint", "sint")


def intervals(p, fns):
    c = set()
    for f in fns:
        ints_in(f.body, c)
        for pr in f.promoted or []:
            for b in pr["blocks"]:
                consts(b["s"], c)
    pts = {0, 256}
    for x in list(HEADS) + [0x80, 0x90, 0xa0, 0xc0, 0xe0, 0xc1]:
        pts |= {x, x + 1}
    for x in c:
        for d in (0, 1):
            if 0 < x + d < 256:
                pts.add(x + d)
            if 0 < x % 256 + d < 256 and x >= 1 << 31:
                pts.add(x % 256 + d)
    s = sorted(pts)
    return [(a, b - 1) for a, b in zip(s, s[1:])]


def eq(it, st, a, b):
    return is_lin(a) and is_lin(b) and it.zero(st, add(a, b, -1)) is True


def end_of(it, st, fam, o):
    """where the item at o ends if its length is in its header"""
    kind, form, x = fam
    v, h = denotes(it, st, fam, o)
    if kind in ("str", "bin"):
        return add(add(o, K(h)), v)
    if kind == "ext":
        return add(add(o, K(1 + h)), v) if form == "len" else add(o, K(1 + x))
    if form == "size":
        return add(o, K(1 + x))
    return add(o, K(h))


def reader(fx, r, what):
    p = program(fx)
    dec = next((a for a in fx.crate(CR).d["adts"] if a["id"].endswith("::Decoder")), None)
    rec = recursive(p)
    reads = [i for i, k in rec.items() if k == "read"]
    skips = [i for i, k in rec.items() if k == "skip"]
    if not r.check(dec is not None and len(reads) == 1 and len(skips) == 1, "reader:exists", "the MessagePack reader is no longer there to decide: one function that reads an item and one that skips one"):
        return None
    cr = fx.crate(CR)
    p.decoder = []
    for n, t, _ in dec["variants"][0]["fields"]:
        s = cr.ts(t)
        p.decoder.append("input" if "[u8]" in s else "offset" if s == "usize" and "offset" not in p.decoder else n)
    fs = [f for f in p.fns.values() if f.crate.name == CR and f.body and "from_msgpack" in f.id]
    p.cuts = intervals(p, fs)

    def graph(i):
        f = next(f for f in fs if f.id == i)
        return flow.Graph(p, f, lambda c, x: policy(c, x) and (c.id not in rec or c.id == i), cap=20000)
    return p, rec, graph, reads[0], skips[0]


def params(it, g, p):
    """what the function gets: the decoder and, where it takes one, the value being made"""
    for l in g.argl:
        t = it.lname(l)
        it.params[l] = ("ref", "decoder", ()) if "Decoder" in t else ("sym", ("wip",)) if "Wip" in t else ("sym", ("arg", l))


def short(it, st, end):
    """the input is known to end before that"""
    return it.holds(st, add(add(end, LEN, -1), K(-1))) is True


def c22(fx, r):
    """what is read is what the bytes say"""
    x = reader(fx, r, "c22")
    if x is None:
        return
    p, rec, graph, rd, sk = x
    r.rule("for every first byte and every type the reader fills: on every path the value stored is the number, string or boolean the item stands for and exactly its bytes are consumed, "
           "or the item is refused because it is cut short, doesn't fit, isn't UTF-8 or is of another kind; a struct takes as many pairs as its header says, "
           "looks each key up as it stands, reads the value into the field found or skips it; skipping an item consumes exactly it")
    g = graph(rd)
    at = rd
    types = []
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        fv = g.fnval(t) if t[0] == "call" else None
        if isinstance(fv, dict) and item_of(fv) in ("put", "is_type"):
            ty = targ(Interp(g), bi, fv)
            ty = SHORT.get(ty, ty)
            if ty not in types:
                types.append(ty)
    for T in types:
        if not r.check(T in TAKES, "type:" + T, "the reader fills %s, and there is no rule for what it must read for it" % T, at):
            continue
        r.count("scalar types")
        for lo, hi in p.cuts:
            it = Dec(g, p, rec, T, (lo, hi))
            params(it, g, p)
            outs = attempt(it, r, "%s:%#04x" % (T, lo))
            if outs is None:
                continue
            fam = family(lo, hi)
            takes = fam is not None and fam[0] in TAKES[T]
            key = "%s:%#04x..%#04x" % (T, lo, hi)
            what = "reading a %s from an item that begins with %#04x..%#04x" % (T, lo, hi)
            r.count("first bytes per type")
            good = 0
            for k, v, st, bi in outs:
                if k != "ret":
                    continue
                it.cur = st
                puts = [e[1] for e in st.events if e[0] == "put"]
                if okret(v) == 1:
                    if not r.check(len(puts) == 1 and fam is not None, key + ":put", "%s succeeds %s" % (what, "without storing one value" if len(puts) != 1 else "though no item begins so"), at):
                        continue
                    fits(r, it, st, fam, T, puts[0], key, what, at)
                    good += 1
                else:
                    ok = not takes
                    if takes:
                        w, h = denotes(it, st, fam, OFF)
                        ok = short(it, st, end_of(it, st, fam, OFF)) or fam[0] == "str" and "utf8" in st.conds
                        if T in INTS and not ok:
                            a, b = INTS[T]
                            ok = it.holds(st, add(w, K(-a))) is False or it.holds(st, add(K(b), w, -1)) is False
                    r.check(ok, key + ":refused", what + " is refused though it is whole and fits", at, key + ": refused")
            r.check(good or not takes or T in INTS and fam[1] == "fix" and fam[0] == "sint" and False, key + ":taken", what + " never succeeds", at)
    # structs: the header
    for lo, hi in p.cuts:
        it = Dec(g, p, rec, None, (lo, hi), "Struct")
        params(it, g, p)
        outs = attempt(it, r, "struct:%#04x" % lo)
        if outs is None:
            continue
        fam = family(lo, hi)
        takes = fam is not None and fam[0] == "map"
        key = "struct:%#04x..%#04x" % (lo, hi)
        what = "reading a struct from an item that begins with %#04x..%#04x" % (lo, hi)
        r.count("first bytes of structs")
        good = 0
        for k, v, st, bi in outs:
            if k == "ret":
                if okret(v) == 1:
                    if not r.check(takes, key + ":kind", what + " succeeds though it isn't a map", at):
                        continue
                    good += 1
                    w, h = denotes(it, st, fam, OFF)
                    why = looped(it, st, outs, add(OFF, K(h)), w, 1, None)
                    r.check(why is None, key + ":loop", "%s: %s" % (what, why), at, key + ": as many pairs as announced")
                elif takes and not any(e[0] in ("enter",) for e in st.events):
                    r.check(short(it, st, end_of(it, st, fam, OFF)), key + ":refused", what + " is refused though its header is whole", at)
        r.check(good or not takes, key + ":taken", what + " never succeeds", at)
    # a key and its value
    for head, lo, hi in [(0x83, a, b) for a, b in p.cuts] + [(h, a, b) for h in (0xde, 0xdf) for a, b in p.cuts if a == 0xa1 or a == 0xd9]:
        it = Dec(g, p, rec, None, (head, head), "Struct", (lo, hi))
        params(it, g, p)
        outs = attempt(it, r, "key:%#04x" % lo)
        if outs is None:
            continue
        fam = family(lo, hi)
        key = "key:%#04x..%#04x" % (lo, hi) + (":%#04x" % head if head != 0x83 else "")
        what = "a key that begins with %#04x..%#04x" % (lo, hi) + (" in a map that begins with %#04x" % head if head != 0x83 else "")
        r.count("first bytes of keys")
        takes = fam is not None and fam[0] == "str"
        got = set()
        for k, v, st, bi in outs:
            if k not in ("loop", "ret"):
                continue
            ent = [i for i, e in enumerate(st.events) if e[0] == "enter"]
            if not ent:
                continue
            info = st.events[ent[-1]][2]
            now = next((n for root, path, a, n in info if root == "decoder"), None)
            ev = st.events[ent[-1] + 1:]
            if k == "loop":
                if not r.check(takes and now is not None, key + ":kind", what + " is taken though it isn't a string", at):
                    continue
                it.cur = st
                why, how = pair(it, st, fam, now, ev)
                got.add(how)
                r.check(why is None, key + ":pair", "%s: %s" % (what, why), at, key + ": " + str(how))
            elif okret(v) == 0 and takes and "nested" not in st.conds:
                it.cur = st
                r.check(short(it, st, end_of(it, st, fam, now)) or "utf8" in st.conds, key + ":refused", what + " is refused though it is whole", at)
        if takes:
            r.check(got >= {"field", "skip"}, key + ":taken", what + " is not both read into its field and skipped where there is none", at)
    # skipping
    g = graph(sk)
    at = sk
    for lo, hi in p.cuts:
        it = Dec(g, p, rec, None, (lo, hi))
        params(it, g, p)
        outs = attempt(it, r, "skip:%#04x" % lo)
        if outs is None:
            continue
        fam = family(lo, hi)
        key = "skip:%#04x..%#04x" % (lo, hi)
        what = "skipping an item that begins with %#04x..%#04x" % (lo, hi)
        r.count("first bytes skipped")
        good = 0
        for k, v, st, bi in outs:
            if k != "ret":
                continue
            it.cur = st
            if okret(v) == 1:
                if not r.check(fam is not None, key + ":kind", what + " succeeds though no item begins so", at):
                    continue
                good += 1
                if fam[0] in ("map", "array"):
                    w, h = denotes(it, st, fam, OFF)
                    why = looped(it, st, outs, add(OFF, K(h)), w, 2 if fam[0] == "map" else 1, "skip")
                    r.check(why is None, key + ":loop", "%s: %s" % (what, why), at, key + ": as many items as announced")
                else:
                    end = end_of(it, st, fam, OFF)
                    r.check(eq(it, st, it.offset(st), end), key + ":end", "%s ends at %s, not at %s" % (what, lin_text(it.offset(st)), lin_text(end)), at, key + ": consumed exactly")
            elif fam is not None and "nested" not in st.conds:
                r.check(short(it, st, end_of(it, st, fam, OFF)), key + ":refused", what + " is refused though it is whole", at)
        r.check(good or fam is None, key + ":taken", what + " never succeeds", at)
    r.floor("scalar types", 10)
    r.floor("first bytes per type", 300)
    r.floor("first bytes skipped", 40)


def attempt(it, r, what):
    try:
        return it.run()
    except Undecided as e:
        r.notes.append("not decided: %s (%s)" % (what, e))
        return None


def fits(r, it, st, fam, T, v, key, what, at):
    """the value stored is the item's, and exactly its bytes are consumed"""
    w, h = denotes(it, st, fam, OFF)
    end = end_of(it, st, fam, OFF)
    r.check(eq(it, st, it.offset(st), end), key + ":end", "%s ends at %s, not at %s" % (what, lin_text(it.offset(st)), lin_text(end)), at, key + ": consumed exactly")
    if T == "bool":
        ok = fam[0] == "bool" and v is fam[2]
    elif T == "String":
        ok = fam[0] == "str" and v[0] == "sl" and eq(it, st, v[2], add(OFF, K(h))) and eq(it, st, v[3], end)
    else:
        ok = fam[0] in ("uint", "sint") and eq(it, st, v, w)
    r.check(ok, key + ":value", "%s stores %s, not what the item stands for" % (what, lin_text(v) if is_lin(v) else str(v)[:120]), at, key + ": the item's value")


def looped(it, st, outs, first, count, per, kind):
    """the path ran one loop, from there, of items: count*per of them"""
    it.cur = st
    ent = [e for e in st.events if e[0] == "enter"]
    if len(ent) != 1:
        if not ent and is_lin(count) and it.zero(st, count) is True:
            return None if eq(it, st, it.offset(st), first) else "more is consumed than an empty item has"
        return "there is not one loop over what is in it"
    head, info = ent[0][1], ent[0][2]
    o = next(((a, n) for root, path, a, n in info if root == "decoder"), None)
    if o is None:
        return "the loop consumes nothing"
    if not eq(it, st, o[0], first):
        return "what is in it is read from %s, not from after its header" % lin_text(o[0])
    if it.offset(st) != o[1]:
        return "more is consumed after what is in it"
    n = it.trips(st, head, info, outs)
    if n is None:
        return "how many times the loop runs is not what its header says"
    if kind is None:
        return None if eq(it, st, n, count) else "the loop runs %s times" % lin_text(n)
    turns = [s for k, h, s, _ in outs if k == "loop" and h == head and any(e == ("enter", head, info) for e in s.events)]
    for s in turns:
        v, k = it.offset(s), 0
        while v != o[1]:
            a = v[2][0][0] if len(v[2]) == 1 and not v[1] else None
            if a is None or a[0] != "after":
                return "a turn of the loop consumes something other than items: up to %s" % lin_text(v)
            v = a[1]
            k += 1
        if not eq(it, st, mul(n, k), mul(count, per)):
            return "%s times %d items are skipped" % (lin_text(n), k)
    return None if turns or it.zero(st, count) is True else "nothing of what is in it is skipped"


def pair(it, st, fam, now, ev):
    """one turn: the key looked up as it stands, then one value read into the field found, or skipped"""
    w, h = denotes(it, st, fam, now)
    end = end_of(it, st, fam, now)
    lk = [e for e in ev if e[0] == "lookup" or e[0] == "field_named"]
    items = [e for e in ev if e[0] == "item"]
    if len(lk) != 1 and not (len(lk) == 2 and lk[0][0] != lk[1][0]):
        return "it isn't looked up once", None
    for e in lk:
        s = e[1]
        if not (s[0] == "sl" and eq(it, st, s[2], add(now, K(h))) and eq(it, st, s[3], end)):
            return "what is looked up is not the key", None
    if len(items) != 1 or not eq(it, st, items[0][2], end):
        return "what follows is not one value, right after it", None
    v = it.offset(st)
    if not (len(v[2]) == 1 and v[2][0][0][0] == "after" and v[2][0][0][1] == items[0][2]):
        return "more than one value is consumed", None
    found = next((e[2] for e in lk if e[0] == "lookup"), "named")
    if found is None:
        return (None, "skip") if items[0][1] == "skip" else ("a field that isn't there is read", "skip")
    if items[0][1] != "read":
        return "the value of a field that is there is skipped", "field"
    fr = items[0][3]
    ok = fr is not None and fr[1][0] == "frame" and (fr[1][1] == ("sym", found) or found == "named")
    if not ok:
        return "its value is not read into the field found", "field"
    if not any(e[0] == "pop" for e in ev):
        return "the field read is not closed", "field"
    return None, "field"


def c23(fx, r):
    """no input makes the reader panic"""
    x = reader(fx, r, "c23")
    if x is None:
        return
    p, rec, graph, rd, sk = x
    r.rule("from any offset within the input, for every first byte and every type: no path of the reader indexes past the end, overflows, or unwraps what can be an error; "
           "it never leaves the offset past the end, so what it calls next begins within the input")
    runs = []
    g = graph(rd)
    types = []
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        fv = g.fnval(t) if t[0] == "call" else None
        if isinstance(fv, dict) and item_of(fv) in ("put", "is_type"):
            ty = targ(Interp(g), bi, fv)
            ty = SHORT.get(ty, ty)
            if ty not in types:
                types.append(ty)
    for T in types + [None]:
        for c in p.cuts:
            runs.append((g, "a " + (T or "scalar of another type"), T, c, "Scalar", (0, 255)))
    for c in p.cuts:
        runs.append((g, "a struct", None, c, "Struct", (0, 255)))
    for k in sorted(p.defs):
        if k not in ("Scalar", "Struct"):
            runs.append((g, "a " + k, None, (0, 255), k, (0, 255)))
    g2 = graph(sk)
    for c in p.cuts:
        runs.append((g2, "what is skipped", None, c, "Scalar", (0, 255)))
    for g, what, T, c, kind, key in runs:
        it = Dec(g, p, rec, T, c, kind, key)
        params(it, g, p)
        outs = attempt(it, r, "%s %s" % (what, c))
        if outs is None:
            continue
        r.count("cases")
        for k, v, st, bi in outs:
            r.count("paths")
            name = "%s:%s" % (what, g.where(bi).split(":")[0])
            if k == "panic":
                r.bad("%s:panic:%s" % (what, v if isinstance(v, str) else v[0]), "reading %s from an item that begins with %#04x..%#04x can panic: %s" % (what, c[0], c[1], v if isinstance(v, str) else " ".join(map(str, v))[:80]), g.where(bi))
            elif k == "ret" and okret(v) != 0:
                r.check(it.holds(st, add(LEN, it.offset(st), -1)) is True, what + ":past", "reading %s from an item that begins with %#04x..%#04x can leave the offset past the end of the input" % (what, c[0], c[1]), g.where(bi))
            else:
                r.ok()
    # where it begins
    dec = fn(p, "::from_slice_value")
    if r.check(dec is not None, "from_slice_value:exists", "from_slice_value is no longer there to decide"):
        g3 = flow.Graph(p, dec, lambda c, x: policy(c, x) and c.id not in rec, cap=20000)
        n = 0
        for bi in g3.reachable():
            for s in g3.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("::Decoder"):
                    o = s[2][2][p.decoder.index("offset")]
                    n += 1
                    r.check(o[0] == "k" and int(o[1].get("bits", "1")) == 0, "start", "a decoder does not begin at the beginning of its input", g3.where(bi), "Decoder: offset 0")
        r.check(n == 1, "start:found", "where the decoder is made was not found", dec.id)
    r.floor("cases", 500)
