"""Numbers that go into a type through f64: what is stored is the number, or it is refused"""
import math
import struct
from fractions import Fraction
from . import flow, vt
from .absint import INTS, K, Undecided, is_lin, num
from .poly import item_of
from .vt import fname
from .c_docs import Doc
from .c_jsonread import nearest
from .c_msgpack import okret, targ

CR = "facet_reflect"
SMALL = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
FMAX = struct.unpack("<f", struct.pack("<I", 0x7f7fffff))[0]
RANGES = {"Range": (">=", "<"), "RangeInclusive": (">=", "<="), "RangeFrom": (">=", None), "RangeTo": (None, "<"), "RangeToInclusive": (None, "<=")}
OPS = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


class Class:
    """a set of floats: kind nan | inf | point | open (the numbers between two), whole or not"""
    def __init__(self, kind, lo=None, hi=None, whole=None):
        self.kind, self.lo, self.hi, self.whole = kind, lo, hi, whole

    def __repr__(self):
        if self.kind == "nan":
            return "NaN"
        if self.kind == "inf":
            return "an infinity"
        if self.kind == "point":
            return "%r" % self.lo
        return "%s number between %r and %r" % ("a whole" if self.whole else "a fractional", self.lo, self.hi)

    def within(self, lo, hi):
        """are all of them in [lo, hi] (True), none (False)"""
        if self.kind == "nan":
            return False
        if self.kind == "inf":
            return False
        if self.kind == "point":
            return lo <= Fraction(self.lo) <= hi
        a, b = Fraction(self.lo), Fraction(self.hi)
        if a >= lo and b <= hi + 1:
            return True if b <= hi or self.whole else None
        return False if b <= lo or a >= hi else None


def classes(cuts):
    cs = sorted(cuts)
    out = [Class("nan"), Class("inf", math.inf), Class("inf", -math.inf)]
    for c in cs:
        out.append(Class("point", c, c, c == math.floor(c)))
    big = 1.7976931348623157e308
    for a, b in zip([-big] + cs, cs + [big]):
        n = math.nextafter(a, math.inf)
        if n >= b:
            continue
        fa, fb = math.floor(a) + 1, math.ceil(b) - 1
        if fa <= fb and (abs(a) < 2 ** 53 or abs(b) < 2 ** 53 or True):
            out.append(Class("open", a, b, True))
        if min(abs(a), abs(b)) < 2 ** 52 or a < 0 < b:
            out.append(Class("open", a, b, False))
    return out


class F64(Doc):
    def __init__(self, g, fx, T, cls, cuts, param):
        Doc.__init__(self, g, fx, {})
        self.T, self.cls, self.cuts, self.param = T, cls, cuts, param
        self.uncut = set()
        self.puts, self.others = [], []

    # -------------------------------------------------------- numbers
    def fv(self, v):
        """a float constant, ("n",) for the number, ("frac",) and so on for what is made of it; or None"""
        n = 0
        while isinstance(v, tuple) and v and v[0] in ("sym", "refv") and len(v) == 2 and n < 8:
            v = v[1]
            n += 1
        if isinstance(v, tuple) and v and v[0] == "float":
            if v[1] == "f64":
                return struct.unpack("<d", struct.pack("<Q", v[2]))[0]
            return struct.unpack("<f", struct.pack("<I", v[2]))[0]
        if v == ("arg", self.param):
            return ("n",)
        if isinstance(v, tuple) and v and v[0] == "fl":
            return v[1:]
        return None

    @staticmethod
    def fc(x):
        return ("float", "f64", struct.unpack("<Q", struct.pack("<d", x))[0])

    def mk(self, *a):
        return ("sym", ("fl",) + a)

    def order(self, x, op, y):
        """a comparison of floats: True, False or None"""
        if isinstance(x, float) and isinstance(y, float):
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if isinstance(x, float):
            return self.order(y, FLIP[op], x)
        if x is None or y is None:
            return None
        if op == "!=":
            r = self.order(x, "==", y)
            return None if r is None else not r
        c = self.cls
        if x == ("n",) and isinstance(y, float):
            if c.kind == "nan" or math.isnan(y):
                return False
            if c.kind in ("inf", "point"):
                return self.order(float(c.lo), op, y)
            if math.isinf(y):
                return self.order(0.0, op, y)
            if y not in self.cuts:
                self.uncut.add(y)
                return None
            return self.order(1.0 if y <= c.lo else -1.0, op, 0.0)
        if x == ("abs",) and isinstance(y, float):
            if y < 0:
                return c.kind != "nan" and self.order(1.0, op, 0.0)
            p, q = self.order(("n",), "<=", y), self.order(("n",), ">=", -y)
            if op in ("<=", ">"):
                r = None if p is None or q is None else p and q
            elif op in ("<", ">="):
                p, q = self.order(("n",), "<", y), self.order(("n",), ">", -y)
                r = None if p is None or q is None else p and q
            else:
                p, q = self.order(("n",), "==", y), self.order(("n",), "==", -y)
                r = None if p is None or q is None else p or q
            if c.kind == "nan":
                return False
            return r if r is None or op in ("<", "<=", "==") else not r
        if x == ("frac",) and y == 0.0:
            if c.kind in ("nan", "inf"):
                return False
            if op == "==":
                return c.whole
            return self.order(0.0 if c.whole else 1.0 if c.lo >= 0 else -1.0, op, 0.0) if c.whole or c.lo >= 0 or c.hi <= 0 else None
        if x == ("mag",) and isinstance(y, float):
            # what is left of a fraction, without its sign
            if c.kind in ("nan", "inf"):
                return False
            if c.whole:
                return self.order(0.0, op, y)
            return self.order(1.0, op, 0.0) if y <= 0 else None
        if {x, y} == {("n",), ("round",)} and op == "==":
            return c.kind == "inf" or c.kind != "nan" and c.whole
        if ("n",) in (x, y) and op == "==":
            z = x if y == ("n",) else y
            if z[0] == "back" and z[1] in INTS:
                return self.back(z[1])
            if z == ("n",):
                return c.kind != "nan"
        return None

    def back(self, T):
        """is the number what it becomes there and back again"""
        c = self.cls
        lo, hi = INTS[T]
        if c.kind in ("nan", "inf"):
            return False
        if c.kind == "point":
            n = max(lo, min(hi, int(c.lo)))
            return float(n) == c.lo
        if not c.whole:
            return False
        return c.within(lo, hi)

    def exact(self, T):
        """is the number one of T: True, False or None"""
        c = self.cls
        if c.kind in ("nan", "inf"):
            return False
        if not c.whole:
            return False
        return c.within(*INTS[T])

    # -------------------------------------------------------- what is done
    def binop(self, st, op, a, b, t):
        if t in ("f64", "f32") or self.fv(a) is not None or self.fv(b) is not None:
            x, y = self.fv(a), self.fv(b)
            if op in OPS:
                r = self.order(x, OPS[op], y)
                return r if r is not None else ("sym", (op, a, b))
            if isinstance(x, float) and isinstance(y, float) and op in ("Add", "Sub", "Mul"):
                return self.fc({"Add": x + y, "Sub": x - y, "Mul": x * y}[op])
            if op == "Rem" and x == ("n",) and y == 1.0:
                return self.mk("frac")
            if op == "Sub" and x == ("n",) and y == ("round",) and self.cls.kind != "inf":
                return self.mk("frac")
            return ("sym", (op, a, b))
        return Doc.binop(self, st, op, a, b, t)

    def rvalue(self, st, rv, bi, dt):
        if rv[0] == "cast" and rv[1] in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            v = self.op(st, rv[2], bi)
            t = self.tname(bi, rv[3])
            x = self.fv(v)
            if rv[1] == "IntToFloat":
                if is_lin(v) and num(v) is not None:
                    return self.fc(float(num(v)))
                T = self.intof(v)
                return self.mk("back", T) if T and t == "f64" else ("sym", ("cast", v, t))
            if rv[1] == "FloatToInt":
                if isinstance(x, float):
                    lo, hi = INTS[t]
                    return K(0 if math.isnan(x) else lo if x <= lo else hi if x >= hi else int(x))
                if x == ("n",) or x == ("round",) and (self.cls.whole or self.cls.kind != "open"):
                    c = self.cls
                    lo, hi = INTS[t]
                    if c.kind == "nan":
                        return K(0)
                    if c.kind in ("point", "inf"):
                        return K(lo if c.lo <= lo else hi if c.lo >= hi else int(c.lo))
                    p, q = (math.floor(c.lo) + 1, math.ceil(c.hi) - 1) if c.whole else (int(c.lo), int(c.hi))
                    p, q = max(lo, min(hi, p)), max(lo, min(hi, q))
                    if p == q:
                        return K(p)
                    v = self.opaque(("as", t), t)
                    self.ranges[v[2][0][0]] = (p, q)
                    return v
                return self.opaque(("of", repr(x), t), t)
            if rv[1] == "FloatToFloat":
                if isinstance(x, float) and t == "f64":
                    return self.fc(x)
                if x == ("n",):
                    return self.mk("n32") if t == "f32" else v
                return ("sym", ("cast", v, t))
        if rv[0] == "un" and rv[1] == "Neg":
            v = self.op(st, rv[2], bi)
            x = self.fv(v)
            if isinstance(x, float):
                return self.fc(-x)
        return Doc.rvalue(self, st, rv, bi, dt)

    def body_value(self, body, crate, c):
        """the value of a constant without branches, floats and ranges included"""
        env = {}

        def op(o):
            if o[0] == "k":
                k = dict(o[1])
                k["_cr"], k["_fr"] = crate, c.get("_fr", 0)
                return self.const(k, None)
            v = env.get(o[1][0])
            for x in o[1][1]:
                if v is None:
                    break
                v = v[1] if x == "*" and v[0] == "refv" else v[3][x[1]] if v[0] == "agg" and isinstance(x, list) and x[0] == "f" else None
            return v
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] != "=" or s[1][1]:
                    continue
                rv, v = s[2], None
                if rv[0] == "use":
                    v = op(rv[1])
                elif rv[0] == "ref":
                    v = op(["c", rv[2]])
                    v = v and ("refv", v)
                elif rv[0] == "cast":
                    v = op(rv[2])
                    t = crate.types[rv[3]]["s"]
                    x = self.fv(v)
                    if t == "f64" and is_lin(v) and num(v) is not None:
                        v = self.fc(float(num(v)))
                    elif t == "f64" and isinstance(x, float):
                        v = self.fc(x)
                    elif not (is_lin(v) and num(v) is not None and t in INTS and INTS[t][0] <= num(v) <= INTS[t][1]):
                        v = None
                elif rv[0] == "agg":
                    v = [op(o) for o in rv[2]]
                    v = self.agg(rv[1], v) if None not in v else None
                elif rv[0] == "bin":
                    x, y = self.fv(op(rv[2])), self.fv(op(rv[3]))
                    if isinstance(x, float) and isinstance(y, float) and rv[1] in ("Add", "Sub", "Mul"):
                        v = self.fc({"Add": x + y, "Sub": x - y, "Mul": x * y}[rv[1]])
                elif rv[0] == "un" and rv[1] == "Neg":
                    x = self.fv(op(rv[2]))
                    v = self.fc(-x) if isinstance(x, float) else None
                env[s[1][0]] = v
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("fn"), dict):
                n = t[1][1]["fn"].get("name") or ""
                vs = [op(o) for o in t[2]]
                if "RangeInclusive" in n and n.endswith("::new") and None not in vs:
                    env[t[3][0]] = ("agg", "RangeInclusive", 0, (vs[0], vs[1], False))
        v = env.get(0)
        return v if v is not None else Doc.body_value(self, body, crate, c)

    def intof(self, v):
        """the type that the number was made an integer of"""
        if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            a = v[2][0][0]
            if isinstance(a[-1], tuple) and a[-1][:1] == ("as",):
                return a[-1][1]
        return None

    def truth(self, st, r, key):
        return [(st, r)] if r is not None else self.cond(st, ("sym", key))

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        X = [self.fv(a) for a in D]
        wip = bool(args) and "Wip" in (self.argtype(bi, t, 0) or "")
        if it in ("is_type", "current_is_type"):
            return [(st, short(targ(self, bi, f)) == self.T)]
        if wip and it in ("put", "try_put"):
            T = short(targ(self, bi, f))
            if T == self.T:
                self.puts.append((D[1], bi))
                return [(st, ("sym", ("stored",)))]
            self.others.append(bi)
            return [(st, ("sym", ("refused",)))]
        if X and X[0] == ("n",) and len(X) == 1:
            c = self.cls
            if it in ("is_nan", "is_finite", "is_infinite"):
                return [(st, {"is_nan": c.kind == "nan", "is_finite": c.kind in ("point", "open"), "is_infinite": c.kind == "inf"}[it])]
            if it == "fract":
                return [(st, self.mk("frac"))]
            if it in ("trunc", "round", "floor", "ceil", "round_ties_even"):
                return [(st, self.mk("round"))]
            if it == "abs":
                return [(st, self.mk("abs"))]
            if it in ("is_sign_negative", "is_sign_positive") and c.kind in ("inf", "open") and (c.kind == "inf" or c.lo >= 0 or c.hi <= 0):
                neg = c.lo < 0 if c.kind == "inf" else c.hi <= 0
                return [(st, neg == (it == "is_sign_negative"))]
        if it == "abs" and X == [("frac",)]:
            return [(st, self.mk("mag"))]
        if it == "rem_euclid" and len(X) == 2 and X[0] == ("n",) and X[1] == 1.0:
            return [(st, self.mk("frac"))]
        if it in ("eq", "ne", "lt", "le", "gt", "ge") and len(X) == 2 and None not in X:
            r = self.order(X[0], OPS[it.capitalize()], X[1])
            return self.truth(st, r, (it, D[0], D[1]))
        if it == "contains" and len(X) == 2 and X[1] is not None and isinstance(D[0], tuple) and D[0][:1] == ("agg",):
            n = str(D[0][1]).split("::")[-1]
            if n in RANGES:
                ops = RANGES[n]
                fs = list(D[0][3][:2])
                bounds = fs if all(ops) else [fs[0], None] if ops[0] else [None, fs[0]]
                r = True
                for o, b in zip(ops, bounds):
                    if o:
                        z = self.order(X[1], o, self.fv(b))
                        r = False if r is False or z is False else None if r is None or z is None else True
                return self.truth(st, r, ("contains", D[0], D[1]))
        if it == "new" and "RangeInclusive" in nm and len(args) == 2:
            return [(st, ("agg", "RangeInclusive", 0, (D[0], D[1], False)))]
        if it == "call_once" and len(D) == 2 and isinstance(D[0], tuple) and D[0][:1] == ("sym",) and D[0][1][0] == "fn" and "NonZero" in str(D[0][1][1]) and isinstance(D[1], tuple) and D[1][:2] == ("agg", "tuple"):
            return self.nonzero(st, str(D[0][1][1]).split("::")[-1], self.deref(st, D[1][3][0]))
        if it in ("new", "new_unchecked") and "NonZero" in nm and len(args) == 1:
            return self.nonzero(st, it, D[0])
        if it in ("unwrap", "expect") and isinstance(D[0], tuple) and D[0] == self.NONE:
            self.outs.append(("panic", "a number is unwrapped that isn't there", st, bi))
            return []
        if it in ("unwrap", "expect") and isinstance(D[0], tuple) and D[0][:1] == ("agg",) and len(D[0][3]) == 1 and ("Option" in nm and D[0][2] == 1 or "Result" in nm and D[0][2] == 0):
            return [(st, D[0][3][0])]
        if it in ("try_from", "try_into") and len(args) == 1 and is_lin(D[0]):
            m = [x for x in INTS if "Result<%s," % x in dt]
            if m:
                r = self.within(D[0], m[0])
                return ([(st, self.okv(D[0]))] if r is not False else []) + ([(st.copy(), self.errv(("sym", ("range",))))] if r is not True else [])
        return Doc.call(self, st, bi, f, args, t, dt)

    def nonzero(self, st, it, x):
        z = num(x) if is_lin(x) else None
        v = ("sym", ("nz", x))
        if it == "new_unchecked":
            return [(st, v)]
        if z is not None:
            return [(st, self.NONE if z == 0 else self.some(v))]
        lo, hi = self.rng(x) if is_lin(x) else (None, None)
        if lo is not None and lo > 0 or hi is not None and hi < 0 or self.intof(x) and self.within0(self.intof(x)):
            return [(st, self.some(v))]
        return [(st, self.some(v)), (st.copy(), self.NONE)]

    def within(self, v, T):
        lo, hi = self.rng(v)
        a, b = INTS[T]
        return True if lo is not None and hi is not None and lo >= a and hi <= b else False if lo is not None and hi is not None and (lo > b or hi < a) else None

    def within0(self, T):
        c = self.cls
        return c.kind == "open" and c.whole and (c.lo >= 0 or c.hi <= 0) or c.kind == "inf"

    def same(self, st, x, y):
        return None


def short(t):
    t = t.split("::")[-1] if "<" not in t else t
    for n in SMALL:
        if t.replace(" ", "").endswith("NonZero<%s>" % n):
            return "NonZero<%s>" % n
    if t.startswith("NonZero") and "<" not in t:
        return "NonZero<%s>" % t[7:].lower()
    return t


KEEP = ("contains", "new", "new_unchecked", "unwrap", "expect", "try_from", "try_into", "is_type", "put", "try_put", "is_nan", "is_finite", "is_infinite", "abs", "fract", "trunc", "round", "floor", "ceil", "rem_euclid",
        "is_sign_negative", "is_sign_positive")


def policy(c, fn):
    it = c.id.split("::")[-1]
    if it in KEEP or "::fmt" in c.id:
        return False
    if c.crate.name == CR:
        return "Wip" not in str(c.crate.types[c.body["locals"][0]].get("s")) and not any("Wip" in c.crate.types[t]["s"] for t in c.body["locals"][1:1 + c.body["argc"]] if isinstance(t, int)) or "f64" in [c.crate.types[t]["s"] for t in c.body["locals"][1:1 + c.body["argc"]] if isinstance(t, int)]
    return c.crate.name == "facet_vf_models" or c.crate.name in ("core", "alloc", "std") and len(c.body["blocks"]) < 16


def c31(fx, r):
    r.rule("for each numeric type and each class of floats (cut where the code, the types and f64 itself distinguish them): what is stored is the number itself, as the type has it, or it is refused; a number that the type has is not refused")
    p = flow.PolyProgram(fx, ["facet_core", CR], models=True)
    roots = [f for i, f in sorted(p.fns.items()) if f.crate.name == CR and f.body and "{closure" not in i and takes(p, f)]
    seenput = 0
    for f in roots:
        g = flow.Graph(p, f, policy, cap=40000)
        param = next(l for l in g.argl if g.tyname(g.locals[l][0], g.locals[l][1]) == "f64")
        name = f.id.split("::")[-1]
        r.count("functions")
        for T in SMALL + ["NonZero<%s>" % x for x in SMALL] + ["f32", "f64", "u128", "i128"]:
            base = T[8:-1] if T.startswith("Non") else T
            cuts = {0.0, 1.0, -1.0, 2.0 ** 53, -2.0 ** 53}
            for x in SMALL:
                lo, hi = INTS[x]
                cuts |= {float(lo), float(hi), float(hi + 1)} if hi < 2 ** 53 else {float(lo), float(hi + 1)}
                if lo:
                    cuts.add(math.nextafter(float(lo), -math.inf) if lo < -2 ** 52 else float(lo - 1))
            cuts |= {FMAX, -FMAX}
            for _ in range(6):
                res, fresh = [], set()
                for c in classes(cuts):
                    it = F64(g, fx, T, c, cuts, param)
                    it.allocated = set()
                    try:
                        outs = it.run()
                    except Undecided as e:
                        r.notes.append("undecided: %s: %s" % (name, e))
                        outs = None
                    fresh |= it.uncut
                    res.append((c, it, outs))
                if not fresh:
                    break
                cuts = cuts | fresh
            for c, it, outs in res:
                if outs is None:
                    continue
                r.count("classes of numbers")
                k = "%s:%s" % (name, T)
                for o in outs:
                    if o[0] == "panic":
                        r.bad(k + ":panic", "%s panics on %r for a %s: %s" % (name, c, T, o[1]), nearest(g, o[3]))
                rets = [v for kk, v, st, bi in outs if kk == "ret"]
                stored = bool(it.puts)
                seenput += stored
                if base in ("f32", "f64"):
                    has = c.kind in ("point", "open") and (base == "f64" or c.within(Fraction(-FMAX), Fraction(FMAX)) is True)
                    free = c.kind in ("nan", "inf")
                    want = {("n",)} if base == "f64" else {("n32",)}
                    for v, bi in it.puts:
                        x = it.fv(v)
                        if x not in want and not (isinstance(x, float) and c.kind == "point" and x == c.lo):
                            r.bad(k + ":value", "%s stores another number in a %s than it was given (%r)" % (name, T, c), nearest(g, bi))
                        elif not has and not free:
                            r.bad(k + ":range", "%s stores %r in a %s, which doesn't have it" % (name, c, T), nearest(g, bi))
                        else:
                            r.ok()
                else:
                    has = it.exact(base)
                    if has is True and T.startswith("Non") and c.kind == "point" and c.lo == 0:
                        has = False
                    if has is True and T.startswith("Non") and c.kind == "open" and c.lo < 0 < c.hi:
                        has = None
                    for v, bi in it.puts:
                        w = v[1][1] if isinstance(v, tuple) and v[:1] == ("sym",) and isinstance(v[1], tuple) and v[1][:1] == ("nz",) else v
                        good = is_lin(w) and (c.kind == "point" and num(w) == int(c.lo) or it.intof(w) is not None and it.exact(it.intof(w)) is True)
                        if has is False:
                            r.bad(k + ":range", "%s stores %r in a %s, which doesn't have it" % (name, c, T), nearest(g, bi))
                        elif not good and has:
                            r.bad(k + ":value", "%s stores another number in a %s than it was given (%r)" % (name, T, c), nearest(g, bi))
                        else:
                            r.ok()
                if has and not stored and rets and "128" not in T:
                    r.bad(k + ":refused", "%s refuses %r for a %s, which has it" % (name, c, T), "facet-reflect/src/wip/put_f64.rs: " + name)
                elif has is False:
                    r.ok()
    r.floor("functions", 1)
    r.count("classes stored", seenput)
    r.floor("classes stored", 10)


def takes(p, f):
    """does a builder's method take an f64 and store what it makes of it"""
    ts = [f.crate.types[t]["s"] if isinstance(t, int) else "" for t in f.body["locals"][1:1 + f.body["argc"]]]
    return "f64" in ts and any("Wip" in t for t in ts)
