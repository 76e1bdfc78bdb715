"""A path-sensitive abstract interpretation of one inlined graph: integers are linear forms over named
quantities with ranges, byte strings are windows into the input, everything else is an opaque name.
Conditions that the ranges and what is known on the path do not settle are followed both ways; loops are
entered once with what they change forgotten."""
import re
from . import flow, vt
from .vt import fname
from .poly import item_of

INF = None
INTS = {}
for _b in (8, 16, 32, 64, 128):
    INTS["u%d" % _b] = (0, (1 << _b) - 1)
    INTS["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INTS["usize"] = INTS["u64"]
INTS["isize"] = INTS["i64"]
INTS["char"] = (0, 0x10ffff)


def bits_of(t):
    return {"usize": 64, "isize": 64, "char": 32}.get(t) or int(t[1:])


class Undecided(Exception):
    pass


def K(c):
    return ("lin", c, ())


def lin(c, m):
    return ("lin", c, tuple(sorted(((a, k) for a, k in m.items() if k), key=repr)))


def atom(a):
    return ("lin", 0, ((a, 1),))


def is_lin(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "lin"


def num(v):
    return v[1] if is_lin(v) and not v[2] else None


def add(a, b, s=1):
    m = dict(a[2])
    for x, k in b[2]:
        m[x] = m.get(x, 0) + s * k
    return lin(a[1] + s * b[1], m)


def mul(a, k):
    return lin(a[1] * k, {x: c * k for x, c in a[2]})


def pointee(t):
    return re.sub(r"^&('\w+ )?(mut )?", "", t)


class State:
    __slots__ = ("mem", "facts", "conds", "events", "loops")

    def __init__(self, mem=None, facts=(), conds=None, events=(), loops=()):
        self.mem, self.facts, self.conds, self.events, self.loops = dict(mem or {}), facts, dict(conds or {}), events, loops

    def copy(self):
        return State(self.mem, self.facts, self.conds, self.events, self.loops)

    def event(self, *x):
        self.events = self.events + (x,)


class Interp:
    """subclass and override call(), param()"""
    LIMIT = 60000
    cur = None              # the state being worked on

    def __init__(self, g, ranges=None):
        self.g = g
        self.ranges = dict(ranges or {})
        self.outs = []          # (kind, value, state, block)
        self.fresh = 0
        self.many = set()
        self.heads = self._heads()

    # ---------------------------------------------------------------- ranges
    def rng(self, v):
        """what a linear form lies between"""
        lo = hi = v[1]
        for a, k in v[2]:
            l, h = self.arng(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def arng(self, a):
        if a in self.ranges:
            return self.ranges[a]
        if a[0] == "byte":
            return (0, 255)
        if a[0] == "wrap":
            return INTS[a[2]]
        if a[0] == "and":
            return (0, a[2])
        if a[0] == "shr":
            lo, hi = self.rng(a[1])
            return (None if lo is None else lo >> a[2], None if hi is None else hi >> a[2])
        if a[0] == "s" and a[1] in INTS:
            return INTS[a[1]]
        return (None, None)

    def holds(self, st, v):
        """v >= 0 on this path: True, False or None"""
        lo, hi = self.rng(v)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        for f in st.facts:
            d = self.rng(add(v, f, -1))
            if d[0] is not None and d[0] >= 0:
                return True
            d = self.rng(add(v, f))
            if d[1] is not None and d[1] < 0:
                return False
        n = len(st.facts)
        for i in range(n):
            for j in range(i, n):
                d = self.rng(add(v, add(st.facts[i], st.facts[j]), -1))
                if d[0] is not None and d[0] >= 0:
                    return True
        return None

    def wrapto(self, v, t):
        """the linear form a value becomes as a t"""
        if not is_lin(v):
            return v
        if t == "bool":
            return v
        if t not in INTS:
            return v
        if t == "u8" and len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1 and v[2][0][0][0] == "shr" and v[2][0][0][2] % 8 == 0:
            return self.byte(v[2][0][0][1], v[2][0][0][2] // 8)
        lo, hi = self.rng(v)
        tl, th = INTS[t]
        m = 1 << bits_of(t)
        if self.cur is not None and v[2] and not (lo is not None and hi is not None and lo >= tl and hi <= th) \
                and self.holds(self.cur, add(v, K(-tl))) and self.holds(self.cur, add(K(th), v, -1)):
            return v
        if lo is not None and hi is not None:
            q = (lo - tl) // m
            if q == (hi - tl) // m:
                return add(v, K(-q * m))
        if len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1 and v[2][0][0][0] == "wrap" and bits_of(v[2][0][0][2]) >= bits_of(t):
            return self.wrapto(v[2][0][0][1], t)
        if t == "u8":
            return self.byte(v, 0)
        return atom(("wrap", v, t))

    def byte(self, v, k):
        """byte k (from the least) of a value in two's complement"""
        lo, hi = self.rng(v)
        if lo is not None and hi is not None and (lo >> (8 * k)) // 256 == (hi >> (8 * k)) // 256:
            if k == 0:
                return add(v, K(-(lo // 256) * 256))
            if lo >> (8 * k) == hi >> (8 * k):
                return K((lo >> (8 * k)) & 255)
        if v[2]:
            # a number put together from bytes
            r, ok = 0, True
            for a, c in v[2]:
                if not (self.arng(a) == (0, 255) and c in [256 ** j for j in range(16)]):
                    ok = False
            if ok and v[1] == 0 and len({c for a, c in v[2]}) == len(v[2]):
                for a, c in v[2]:
                    if c == 256 ** k:
                        return atom(a)
                return K(0)
        if len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1 and v[2][0][0][0] == "wrap" and 8 * k < bits_of(v[2][0][0][2]):
            return self.byte(v[2][0][0][1], k)
        return atom(("byte", v, k))

    def be(self, bs):
        v = K(0)
        for b in bs:
            v = add(mul(v, 256), b)
        return v

    # ---------------------------------------------------------------- places
    def tname(self, bi, ti):
        b = self.g.blocks[bi]
        return self.g.tyname(b["fn"].crate, ti, b["fr"]) if isinstance(ti, int) else ""

    def lname(self, l, bi=None):
        cr, ti = self.g.locals[l]
        fr = self.g.blocks[bi]["fr"] if bi is not None else 0
        return self.g.tyname(cr, ti, fr) if isinstance(ti, int) else ""

    def resolve(self, st, p, bi):
        """(root, projections) with references followed, or ("val", value, projections)"""
        root, path = p[0], []
        for x in p[1]:
            if x == "*":
                v = self.read(st, root, path)
                if isinstance(v, tuple) and v and v[0] == "ref":
                    root, path = v[1], list(v[2])
                elif isinstance(v, tuple) and v and v[0] in ("sl", "str", "bytes", "pieces"):
                    root, path = ("val", v), []
                elif isinstance(v, tuple) and v and v[0] == "refv":
                    root, path = ("val", v[1]), []
                elif isinstance(v, tuple) and v and v[0] == "sym":
                    root, path = ("val", ("sym", ("*", v[1]))), []
                else:
                    root, path = ("val", ("sym", ("*", repr(v)))), []
            elif isinstance(x, list) and x[0] == "i":
                path.append(("i", self.read(st, x[1], [])))
            elif isinstance(x, list) and x[0] == "f":
                path.append(("f", x[1], x[2], x[4] if len(x) > 4 else None, self.tname(bi, x[5]) if len(x) > 5 and bi is not None else ""))
            elif isinstance(x, list) and x[0] == "ci" and not x[2]:
                path.append(("i", K(int(x[1]))))
            elif isinstance(x, list) and x[0] == "d":
                path.append(("d", x[1], x[2]))
            elif isinstance(x, list):
                path.append(tuple(str(y) for y in x))
            else:
                path.append((str(x),))
        return root, path

    def read(self, st, root, path):
        v = root[1] if isinstance(root, tuple) and root[0] == "val" else st.mem.get(root)
        if v is None:
            v = self.initial(root)
        for x in path:
            v = self.proj(st, v, x)
        return v

    def initial(self, root):
        if isinstance(root, int):
            t = self.lname(root)
            return self.opaque(("local", root), t)
        return self.opaque(root, "")

    def opaque(self, key, t):
        if t in INTS:
            return atom(("s", t, key))
        return ("sym", key)

    def proj(self, st, v, x):
        if x[0] == "d":
            if v[0] == "agg":
                return v
            return ("sym", ("as", v[1], x[1])) if v[0] == "sym" else ("sym", ("as", v, x[1]))
        if x[0] == "f":
            if v[0] == "agg":
                if x[1] < len(v[3]):
                    return v[3][x[1]]
                return ("sym", ("missing", v))
            if v[0] == "sl" and x[1] == 0:
                return v
            return self.opaque(("f", v[1] if v[0] == "sym" else v, x[1], x[2]), x[4])
        if x[0] == "i":
            return self.at(st, v, x[1])
        return ("sym", (x, v))

    def at(self, st, v, i):
        if v[0] == "sl" and is_lin(i):
            return self.inbyte(v[1], add(v[2], i))
        if v[0] == "agg" and num(i) is not None and num(i) < len(v[3]):
            return v[3][num(i)]
        if v[0] == "bytes" and num(i) is not None and num(i) < len(v[1]):
            return K(v[1][num(i)])
        return ("sym", ("[]", v, i))

    def inbyte(self, src, off):
        """the byte at an offset of the input"""
        return atom(("byte", (src, off), 0))

    def slot(self, v, path, new):
        if not path:
            return new
        x = path[0]
        if x[0] == "d":
            return self.slot(v, path[1:], new)
        i = x[1] if x[0] == "f" else num(x[1]) if x[0] == "i" else None
        if i is None:
            return ("sym", ("changed", self.new()))
        if v[0] != "agg":
            if v[0] == "sym" and x[0] == "f":
                # a structure that is only known by name: keep what is set
                n = max(i + 1, 4)
                v = ("agg", ("of", v[1]), 0, tuple(("sym", ("f", v[1], j, None)) for j in range(n)))
            else:
                return ("sym", ("changed", self.new()))
        vals = list(v[3])
        while len(vals) <= i:
            vals.append(("sym", ("unset", self.new())))
        vals[i] = self.slot(vals[i], path[1:], new)
        return (v[0], v[1], v[2], tuple(vals))

    def new(self):
        self.fresh += 1
        return self.fresh

    def write(self, st, p, v, bi):
        root, path = self.resolve(st, p, bi)
        self.put(st, root, path, v)

    def put(self, st, root, path, v):
        if isinstance(root, tuple) and root[0] == "val":
            return
        if not path:
            st.mem[root] = v
            return
        old = st.mem.get(root)
        if old is None:
            old = self.initial(root)
        st.mem[root] = self.slot(old, path, v)

    # ---------------------------------------------------------------- values
    def const(self, c, bi):
        cr, fr = c.get("_cr"), c.get("_fr", 0)
        t = self.g.tyname(cr, c["ty"], fr) if cr is not None and isinstance(c.get("ty"), int) else ""
        if "bits" in c:
            n = int(c["bits"])
            if t == "bool":
                return bool(n)
            if t in INTS and t[0] == "i" and n > INTS[t][1]:
                n -= 1 << bits_of(t)
            if t in ("f64", "f32"):
                return ("float", t, n)
            return K(n)
        if "str" in c:
            return ("str", c["str"])
        if "bytes" in c:
            return ("bytes", tuple(c["bytes"]))
        if c.get("promoted") is not None and "_own" in c:
            return self.body_value(c["_own"].promoted[c["promoted"]], c["_own"].crate, c)
        if "uneval" in c:
            f = self.g.prog.by_id(c["uneval"], cr) if hasattr(self.g.prog, "by_id") else None
            if f is not None and f.body is not None and len(f.body["blocks"]) == 1:
                v = self.body_value(f.body, f.crate, c)
                if v is not None:
                    return v
            return ("sym", ("const", c["uneval"], t))
        if "fn" in c:
            return ("sym", ("fn", fname(c["fn"])))
        if "val" in c and cr is not None:
            v = self.dumped(c["val"], cr, t, 0)
            if v is not None:
                return v
        return ("sym", ("const", t, c.get("zst") and "zst"))

    def dumped(self, v, cr, t, n):
        """a constant the compiler has evaluated"""
        if n > 6:
            return None
        if isinstance(v, dict) and set(v) == {"ref"} and isinstance(v["ref"], int) and v["ref"] < len(cr.d.get("allocs") or ()):
            a = cr.d["allocs"][v["ref"]]
            if not isinstance(a, dict):
                return None
            x = self.dumped(a["v"], cr, cr.ts(a["ty"]), n + 1)
            return ("refv", x) if x is not None and not (isinstance(x, tuple) and x and x[0] in ("bytes", "str")) else x
        if isinstance(v, bool):
            return v
        if isinstance(v, int) and (t in INTS or t == ""):
            return K(v)
        if isinstance(v, list):
            m = re.match(r"\[(.*?)(; \d+)?\]$", t)
            et = m.group(1) if m else ""
            if et == "u8" and all(isinstance(x, int) for x in v):
                return ("bytes", tuple(v))
            xs = [self.dumped(x, cr, et, n + 1) for x in v]
            return ("agg", "array", 0, tuple(xs)) if all(x is not None for x in xs) and m else None
        if isinstance(v, str) and t.endswith("str"):
            return ("str", v)
        return None

    def body_value(self, body, crate, c):
        """the value of a constant body without branches"""
        env = {}

        def op(o):
            if o[0] == "k":
                k = dict(o[1])
                k["_cr"], k["_fr"] = crate, c.get("_fr", 0)
                return self.const(k, None)
            v = env.get(o[1][0])
            for x in o[1][1]:
                if x == "*" or v is None:
                    v = v[1] if v and v[0] == "refv" else v
                    continue
                v = v[3][x[1]] if v[0] == "agg" and isinstance(x, list) and x[0] == "f" and x[1] < len(v[3]) else None
            return v if v is not None else ("sym", ("?", self.new()))
        for b in body["blocks"]:
            for s in b["s"] if isinstance(b, dict) else b[0]:
                if s[0] != "=" or s[1][1]:
                    continue
                rv = s[2]
                if rv[0] == "use":
                    v = op(rv[1])
                elif rv[0] in ("ref", "raw"):
                    v = op(["c", rv[2]])
                    v = ("refv", v) if v is not None and v[0] not in ("str", "bytes") else v
                elif rv[0] == "cast":
                    v = op(rv[2])
                elif rv[0] == "agg":
                    v = self.agg(rv[1], [op(o) for o in rv[2]])
                else:
                    v = None
                env[s[1][0]] = v if v is not None else ("sym", ("?", self.new()))
        v = env.get(0)
        return v if v is not None else ("sym", ("?", self.new()))

    def agg(self, k, vals):
        if k[0] == "adt":
            return ("agg", k[1], k[5] if len(k) > 5 else 0, tuple(vals))
        return ("agg", k[0], 0, tuple(vals))

    def op(self, st, o, bi):
        if o[0] == "k":
            return self.const(o[1], bi)
        if o[0] in ("c", "m"):
            root, path = self.resolve(st, o[1], bi)
            return self.read(st, root, path)
        return ("sym", ("rt",))

    def rvalue(self, st, rv, bi, dt):
        k = rv[0]
        if k == "use":
            return self.op(st, rv[1], bi)
        if k in ("ref", "raw"):
            root, path = self.resolve(st, rv[2], bi)
            if isinstance(root, tuple) and root[0] == "val":
                v = self.read(st, root, path)
                if isinstance(v, tuple) and v[0] in ("sl", "str", "bytes", "pieces"):
                    return v
                if isinstance(v, tuple) and v[0] == "sym" and isinstance(v[1], tuple) and v[1] and v[1][0] == "*" and not path:
                    return ("sym", v[1][1])
                return ("refv", v)
            v = self.read(st, root, path)
            return ("ref", root, tuple(path))
        if k == "cast":
            v = self.op(st, rv[2], bi)
            t = self.tname(bi, rv[3])
            if rv[1].startswith("IntToInt") or rv[1] in ("Transmute",):
                if isinstance(v, bool):
                    v = K(int(v))
                if is_lin(v):
                    return self.wrapto(v, t)
                if t in INTS:
                    return self.opaque(("cast", v, t), t)
                return v if rv[1] == "Transmute" else ("sym", ("cast", v, t))
            if rv[1].startswith("PointerCoercion") or rv[1] in ("PtrToPtr",):
                return v
            return self.opaque(("cast", rv[1], v, t), t)
        if k == "bin":
            return self.binop(st, rv[1], self.op(st, rv[2], bi), self.op(st, rv[3], bi), self.optype(rv[2], bi) or self.optype(rv[3], bi))
        if k == "un":
            v = self.op(st, rv[2], bi)
            if rv[1] == "Not":
                if isinstance(v, bool):
                    return not v
                if v[0] in ("ge", "eqz", "not", "sym", "and", "or"):
                    return v[1] if v[0] == "not" else ("not", v)
                return ("sym", ("!", v))
            if rv[1] == "Neg" and is_lin(v):
                return mul(v, -1)
            if rv[1] == "PtrMetadata":
                return self.length(st, v)
            return self.opaque((rv[1], v), dt)
        if k == "agg":
            return self.agg(rv[1], [self.op(st, o, bi) for o in rv[2]])
        if k == "discr":
            root, path = self.resolve(st, rv[1], bi)
            v = self.discr(st, self.read(st, root, path))
            if isinstance(v, tuple) and v[0] == "sym":
                t = re.sub(r"<.*", "", self.ptype(rv[1], bi) or "").split("::")[-1]
                if t in getattr(self.g.prog, "many", ()):
                    self.many.add(v[1])
            return v
        if k == "repeat":
            return ("agg", "array", 0, (self.op(st, rv[1], bi),) * (rv[2] if isinstance(rv[2], int) and rv[2] < 64 else 0))
        return self.opaque(("rv", k, self.new()), dt)

    def discr(self, st, v):
        if v[0] == "agg":
            return K(v[2])
        return ("sym", ("discr", v[1] if v[0] == "sym" else v))

    def ptype(self, p, bi):
        """the type of a place"""
        t = self.lname(p[0], bi)
        for x in p[1]:
            if x == "*":
                t = pointee(t or "")
            elif isinstance(x, list) and x[0] == "f":
                t = self.tname(bi, x[5]) if len(x) > 5 else None
            elif not (isinstance(x, list) and x[0] == "d"):
                return None
        return t

    def optype(self, o, bi):
        if o[0] in ("c", "m"):
            if not o[1][1]:
                return self.lname(o[1][0], bi)
            x = o[1][1][-1]
            if isinstance(x, list) and x[0] == "f" and len(x) > 5:
                return self.tname(bi, x[5])
            return None
        if o[0] == "k":
            c = o[1]
            return self.g.tyname(c["_cr"], c["ty"], c.get("_fr", 0))
        return None

    def length(self, st, v):
        if v[0] == "ref":
            v = self.read(st, v[1], v[2])
        if v[0] == "refv":
            v = v[1]
        if v[0] == "sl":
            return add(v[3], v[2], -1)
        if v[0] == "str":
            return K(len(v[1].encode()))
        if v[0] == "bytes":
            return K(len(v[1]))
        if v[0] == "agg" and v[1] == "array":
            return K(len(v[3]))
        return self.opaque(("len", self.name(v)), "usize")

    def name(self, v):
        while isinstance(v, tuple) and v and v[0] in ("sym", "refv"):
            v = v[1]
        return v

    def binop(self, st, op, a, b, t):
        if op.endswith("WithOverflow"):
            v = self.arith(st, op[:-12], a, b)
            if v is None:
                return ("agg", "tuple", 0, (self.opaque((op, a, b), t or ""), ("sym", ("overflow", op, a, b))))
            over = None
            if t in INTS:
                lo, hi = INTS[t]
                x, y = self.holds(st, add(K(hi), v, -1)), self.holds(st, add(v, K(lo), -1))
                over = False if x and y else True if x is False or y is False else None
            return ("agg", "tuple", 0, (v, over if over is not None else ("sym", ("overflow", op, a, b))))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, bool) and isinstance(b, bool):
                a, b = K(int(a)), K(int(b))
            for x, y in ((a, b), (b, a)):
                if isinstance(y, bool) and isinstance(x, tuple) and x[0] in ("sym", "not", "ge", "eqz", "and", "or") and op in ("Eq", "Ne"):
                    same = (op == "Eq") == y
                    return x if same else ("not", x)
            if is_lin(a) and is_lin(b):
                d = add(a, b, -1)
                if op in ("Eq", "Ne"):
                    r = self.zero(st, d)
                    return (r if op == "Eq" else not r) if r is not None else ("eqz", d) if op == "Eq" else ("not", ("eqz", d))
                v = {"Ge": d, "Gt": add(d, K(-1)), "Le": mul(d, -1), "Lt": add(mul(d, -1), K(-1))}[op]
                r = self.holds(st, v)
                return r if r is not None else ("ge", v)
            return ("sym", (op, a, b))
        v = self.arith(st, op, a, b)
        if v is None:
            return self.opaque((op, a, b), t or "")
        return self.wrapto(v, t) if t else v

    def zero(self, st, d):
        a, b = self.holds(st, d), self.holds(st, mul(d, -1))
        if a and b:
            return True
        if a is False or b is False:
            return False
        return None

    def arith(self, st, op, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool) and op in ("BitAnd", "BitOr", "BitXor"):
                return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
            return None
        if not (is_lin(a) and is_lin(b)):
            return None
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return add(a, b, -1)
        x, y = num(a), num(b)
        if op in ("Mul", "MulUnchecked") and (x is not None or y is not None):
            return mul(b, x) if x is not None else mul(a, y)
        if x is not None and y is not None:
            f = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y if 0 <= y < 128 else None,
                 "Shr": lambda: x >> y if 0 <= y < 128 else None, "Div": lambda: x // y if y > 0 and x >= 0 else None, "Rem": lambda: x % y if y > 0 and x >= 0 else None}.get(op)
            r = f() if f else None
            return K(r) if r is not None else None
        if op in ("Shl", "ShlUnchecked") and y is not None and 0 <= y < 128:
            return mul(a, 1 << y)
        if op in ("Shr", "ShrUnchecked") and y is not None and 0 <= y < 128:
            if y % 8 == 0:
                lo, hi = self.rng(a)
                if lo is not None and hi is not None and lo >= 0 and hi < 1 << (y + 8):
                    return self.byte(a, y // 8)
            return atom(("shr", a, y))
        if op == "BitAnd":
            if x is not None:
                a, b, x, y = b, a, y, x
            if y is not None and y >= 0:
                lo, hi = self.rng(a)
                if (y + 1) & y == 0 and lo is not None and hi is not None and lo // (y + 1) == hi // (y + 1):
                    return add(a, K(-(lo // (y + 1)) * (y + 1)))
                if y == 255:
                    return self.byte(a, 0)
                return atom(("and", a, y))
        if op in ("BitOr", "BitXor"):
            # bits that don't meet
            for p, q in ((a, b), (b, a)):
                n = num(p)
                lo, hi = self.rng(q)
                if lo is None or hi is None or lo < 0:
                    continue
                w = 1 << hi.bit_length()
                if n is not None and n & (w - 1) == 0:
                    return add(p, q)
                if n is None and all(k % w == 0 for _, k in p[2]) and p[1] % w == 0:
                    return add(p, q)
        return None

    # ---------------------------------------------------------------- paths
    def _heads(self):
        """block -> blocks of the loop it begins"""
        g = self.g
        if getattr(g, "_heads", None) is not None:
            return g._heads
        g._heads = self._loops()
        return g._heads

    def _loops(self):
        g = self.g
        color, back = {}, []
        stack = [(g.entry, iter([x for x in g.succs(g.entry) if x is not None]))]
        color[g.entry] = 1
        while stack:
            b, it = stack[-1]
            n = next(it, None)
            if n is None:
                color[b] = 2
                stack.pop()
                continue
            if color.get(n) == 1:
                back.append((b, n))
            elif n not in color:
                color[n] = 1
                stack.append((n, iter([x for x in g.succs(n) if x is not None])))
        pred = {}
        for b in color:
            for s in g.succs(b):
                if s is not None:
                    pred.setdefault(s, set()).add(b)
        out = {}
        for b, h in back:
            body = out.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += pred.get(x, ())
        return out

    def cond(self, st, v):
        """[(state, truth)] for a truth value"""
        if isinstance(v, bool):
            return [(st, v)]
        if v[0] == "not":
            return [(s, not x) for s, x in self.cond(st, v[1])]
        if v[0] == "and":
            out = []
            for s, x in self.cond(st, v[1]):
                out += self.cond(s, v[2]) if x else [(s, False)]
            return out
        if v[0] == "ge":
            r = self.holds(st, v[1])
            if r is not None:
                return [(st, r)]
            a, b = st.copy(), st.copy()
            a.facts = a.facts + (v[1],)
            b.facts = b.facts + (add(mul(v[1], -1), K(-1)),)
            return [(a, True), (b, False)]
        if v[0] == "eqz":
            r = self.zero(st, v[1])
            if r is not None:
                return [(st, r)]
            a, b = st.copy(), st.copy()
            a.facts = a.facts + (v[1], mul(v[1], -1))
            b.conds[("ne", v[1])] = True
            if self.holds(st, v[1]):
                b.facts = b.facts + (add(v[1], K(-1)),)
            elif self.holds(st, mul(v[1], -1)):
                b.facts = b.facts + (add(mul(v[1], -1), K(-1)),)
            out = [(a, True)]
            if not st.conds.get(("ne", v[1])):
                out.append((b, False))
            else:
                return [(b, False)]
            return out
        key = v[1] if v[0] == "sym" else v
        if key in st.conds:
            return [(st, st.conds[key])]
        given = self.given(st, key)
        if given is not None:
            return [(st, given)]
        a, b = st.copy(), st.copy()
        a.conds[key] = True
        b.conds[key] = False
        return [(a, True), (b, False)]

    def given(self, st, key):
        return None

    def switch(self, st, v, t):
        targets, other = t[2], t[3]
        if isinstance(v, bool) or (isinstance(v, tuple) and v[0] in ("ge", "eqz", "not", "and")):
            out = []
            for s, x in self.cond(st, v):
                out.append((next((b for w, b in targets if int(w) == int(x)), other), s))
            return out
        if is_lin(v):
            lo, hi = self.rng(v)
            n = num(v)
            if n is not None:
                return [(next((b for w, b in targets if int(w) == n or int(w) - (1 << 64) == n or int(w) - 256 == n and n < 0), other), st)]
            out = []
            o = st.copy()
            left = 0
            for w, b in targets:
                d = add(v, K(-int(w)))
                r = self.zero(o, d)
                if r is False:
                    continue
                a = o.copy()
                a.facts = a.facts + (d, mul(d, -1))
                out.append((b, a))
                o.conds[("ne", d)] = True
                if self.holds(o, d):
                    o.facts = o.facts + (add(d, K(-1)),)
                elif self.holds(o, mul(d, -1)):
                    o.facts = o.facts + (add(mul(d, -1), K(-1)),)
                if r is True:
                    return out
                left += 1
            if not (lo is not None and hi is not None and hi - lo + 1 == left):
                out.append((other, o))
            return out
        key = v[1] if v[0] == "sym" else v
        vals = [int(w) for w, _ in targets]
        if key in st.conds:
            c = st.conds[key]
            return [(next((b for w, b in targets if int(w) == int(c)), other), st)] if not isinstance(c, tuple) else \
                [(b, self.chose(st, key, int(w))) for w, b in targets if int(w) not in c[1]] + [(other, st)]
        g = self.given(st, key)
        if g is not None:
            return [(next((b for w, b in targets if int(w) == int(g)), other), st)]
        out = [(b, self.chose(st, key, int(w))) for w, b in targets]
        if self.g.blocks[other]["t"][0] != "unreachable":
            o = st.copy()
            o.conds[key] = (1 - vals[0] if vals in ([0], [1]) and key not in self.many else ("not", tuple(vals)))
            out.append((other, o))
        return out

    def chose(self, st, key, v):
        a = st.copy()
        a.conds[key] = v
        return a

    def enter(self, st, bi, frm):
        """states in which a block is entered: at a loop's head what the loop changes is forgotten"""
        if bi not in self.heads:
            return st
        body = self.heads[bi]
        if bi in st.loops:
            if frm in body:
                if self.again(st, bi):
                    return None
            else:
                st = st.copy()
                st.loops = tuple(x for x in st.loops if x != bi)
        if bi not in st.loops:
            st = st.copy()
            st.loops = st.loops + (bi,)
            self.forget(st, bi, body)
        return st

    def again(self, st, bi):
        """a path comes back to the head of a loop"""
        self.outs.append(("loop", bi, st, bi))
        return True

    def forget(self, st, head, body):
        g = self.g
        old = dict(st.mem)
        for b in body:
            for s in g.blocks[b]["s"]:
                if s[0] == "=":
                    self.havoc(st, s[1], b, head)
            t = g.blocks[b]["t"]
            if t[0] == "call":
                self.havoc(st, t[3], b, head)
                for a in t[2]:
                    if a[0] in ("c", "m") and not a[1][1]:
                        self.havocref(st, a[1], b, head)
        self.also(st, head)
        info = []

        def diff(root, path, a, b):
            if is_lin(a) and is_lin(b):
                if a != b:
                    info.append((root, path, a, b))
            elif isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "agg" and len(a[3]) == len(b[3]):
                for i, (x, y) in enumerate(zip(a[3], b[3])):
                    diff(root, path + (i,), x, y)
        for root, v in old.items():
            if st.mem.get(root) is not v:
                diff(root, (), v, st.mem.get(root))
        st.event("enter", head, tuple(info))
        self.invariants(st, head, info)

    def also(self, st, head):
        """what else a loop changes"""

    def at_path(self, st, root, path):
        v = st.mem.get(root)
        for i in path:
            if not (isinstance(v, tuple) and v and v[0] == "agg" and i < len(v[3])):
                return None
            v = v[3][i]
        return v

    def trips(self, st, head, info, outs):
        """how many turns of a loop a path took that left it: a linear form, or None"""
        turns = [s for k, h, s, _ in outs if k == "loop" and h == head and any(e == ("enter", head, info) for e in s.events)]
        if not turns:
            return K(0)
        for root, path, first, now in info:
            deltas = {repr(add(v, now, -1)) if is_lin(v) else None for v in (self.at_path(s, root, path) for s in turns)}
            for d in (1, -1):
                if deltas != {repr(K(d))}:
                    continue
                a = now[2][0][0]
                for f in st.facts:
                    if dict(f[2]).get(a) != d:
                        continue
                    # leaves with d*now >= bound, goes on only while d*now < bound
                    bound = add(mul(now, d), f, -1)
                    if all(self.holds(s, add(add(bound, mul(now, d), -1), K(-1))) for s in turns):
                        return add(bound, mul(first, d), -1)
        return None

    def pointees(self, st, l, bi, n=0):
        """[(root, path)]: what a reference local can point to, whether or not it has been set on this path"""
        v = st.mem.get(l)
        if v is None and l in self.g.argl:
            v = self.initial(l)
        if isinstance(v, tuple) and v and v[0] == "ref":
            return [(v[1], list(v[2]))]
        if n > 12:
            return []
        out = []
        for db, si, rv in self.g.defs.get(l, []):
            if si == "t":
                continue
            if rv[0] in ("ref", "raw"):
                out += self.roots(st, rv[2], db, n + 1)
            elif rv[0] in ("use", "cast"):
                o = rv[1] if rv[0] == "use" else rv[2]
                if o[0] in ("c", "m") and not o[1][1]:
                    out += self.pointees(st, o[1][0], db, n + 1)
        return out

    def roots(self, st, p, bi, n=0):
        """[(root, path)] of a place, with references that aren't set yet followed to what they will be"""
        l, pr = p
        if "*" not in pr:
            root, path = self.resolve(st, p, bi)
            return [] if isinstance(root, tuple) and root[0] == "val" else [(root, list(path))]
        i = pr.index("*")
        if i:
            root, path = self.resolve(st, p, bi)
            return [] if isinstance(root, tuple) and root[0] == "val" else [(root, list(path))]
        out = []
        for root, path in self.pointees(st, l, bi, n):
            rest = pr[1:]
            if "*" in rest:
                v = self.read(st, root, path)
                if isinstance(v, tuple) and v and v[0] == "ref":
                    root, path, rest = v[1], list(v[2]), rest[rest.index("*") + 1:]
                else:
                    continue
            _, more = self.resolve(st, [-1, rest], bi)
            out.append((root, path + list(more)))
        return out

    def havoc(self, st, p, b, head):
        l, pr = p
        if "*" not in pr:
            if l in st.mem:
                old = st.mem[l]
                st.mem[l] = self.unknown(old, self.lname(l, b))
            return
        for root, path in self.roots(st, p, b):
            old = self.read(st, root, path)
            t = pr[-1][4] if pr[-1][0] == "f" else pointee(self.lname(l, b)) if pr == ["*"] else ""
            self.put(st, root, path, self.unknown(old, t))

    def havocref(self, st, p, b, head):
        """what a call in a loop gets a mutable reference to"""
        if not self.lname(p[0], b).startswith("&mut"):
            return
        for root, path in self.pointees(st, p[0], b):
            old = self.read(st, root, path)
            self.put(st, root, path, self.unknown(old, pointee(self.lname(p[0], b))))

    def unknown(self, old, t):
        if is_lin(old) or t in INTS:
            a = ("s", t if t in INTS else "?", ("loop", self.new()))
            return atom(a)
        if isinstance(old, tuple) and old and old[0] == "agg":
            if isinstance(old[1], str) and old[1].split("::")[-1] == "Range" and len(old[3]) == 2:
                return (old[0], old[1], old[2], (self.unknown(old[3][0], "usize"), old[3][1]))
            return (old[0], old[1], old[2], tuple(self.unknown(x, "usize" if is_lin(x) else "") for x in old[3]))
        if isinstance(old, tuple) and old and old[0] in ("sl", "ref", "str", "bytes"):
            return old
        return ("sym", ("loop", self.new()))

    def invariants(self, st, head, info):
        pass

    def start(self):
        return State()

    def run(self):
        todo = [(self.g.entry, self.start(), None)]
        n = 0
        while todo:
            n += 1
            if n > self.LIMIT:
                raise Undecided("too many paths")
            bi, st, frm = todo.pop()
            st = self.enter(st, bi, frm)
            if st is None:
                continue
            for b2, s2 in self.block(bi, st.copy()):
                todo.append((b2, s2, bi))
        return self.outs

    def block(self, bi, st):
        g = self.g
        self.cur = st
        b = g.blocks[bi]
        for s in b["s"]:
            if s[0] == "=":
                dt = self.lname(s[1][0], bi) if not s[1][1] else ""
                self.write(st, s[1], self.rvalue(st, s[2], bi, dt), bi)
        t = b["t"]
        k = t[0]
        if k == "ret":
            self.outs.append(("ret", self.read(st, g.blocks[bi].get("ret", 0), []), st, bi))
            return []
        if k == "switch":
            return self.switch(st, self.op(st, t[1], bi), t)
        if k == "assert":
            out = []
            ss = [x for x in g.succs(bi) if x is not None]
            for s, x in self.cond(st, self.op(st, t[1], bi)):
                if x == t[2]:
                    out += [(y, s) for y in ss[:1]]
                else:
                    self.outs.append(("panic", t[3], s, bi))
            return out
        if k == "call":
            f = g.fnval(t)
            ss = [x for x in g.succs(bi) if x is not None]
            args = [self.op(st, o, bi) for o in t[2]]
            if not ss or (isinstance(f, dict) and f.get("never")):
                self.outs.append(("panic", fname(f) if isinstance(f, dict) else "?", st, bi))
                return []
            out = []
            dt = self.lname(t[3][0], bi) if not t[3][1] else ""
            for s, v in self._calls(st, bi, f, args, t, dt):
                self.write(s, t[3], v, bi)
                out.append((ss[0], s))
            return out
        if k == "unreachable":
            return []
        ss = [x for x in g.succs(bi) if x is not None]
        if k in ("goto", "drop") and ss:
            return [(ss[0], st)]
        if k in ("resume", "abort"):
            return []
        if ss:
            return [(ss[0], st)]
        return []

    def deref(self, st, v):
        n = 0
        while isinstance(v, tuple) and v and v[0] in ("ref", "refv") and n < 8:
            v = self.read(st, v[1], v[2]) if v[0] == "ref" else v[1]
            n += 1
        return v

    def some(self, v):
        return ("agg", "core::option::Option", 1, (v,))

    NONE = ("agg", "core::option::Option", 0, ())

    def okv(self, v):
        return ("agg", "core::result::Result", 0, (v,))

    def errv(self, v):
        return ("agg", "core::result::Result", 1, (v,))

    def ranged(self, r, n):
        """(start, end) of a range value over something of length n"""
        if r[0] != "agg" or not isinstance(r[1], str):
            return None
        nm = r[1].split("::")[-1]
        v = r[3]
        if nm == "Range" and len(v) == 2:
            return v[0], v[1]
        if nm == "RangeInclusive":
            return v[0], add(v[1], K(1)) if is_lin(v[1]) else None
        if nm == "RangeTo":
            return K(0), v[0]
        if nm == "RangeFrom":
            return v[0], n
        if nm == "RangeFull":
            return K(0), n
        return None

    def isrange(self, v):
        return isinstance(v[1], str) and v[1].split("::")[-1] == "Range" and len(v[3]) == 2 and all(is_lin(x) for x in v[3])

    def _calls(self, st, bi, f, args, t, dt):
        r = self.call(st, bi, f, args, t, dt)
        if r is not None:
            return r
        it = item_of(f) if isinstance(f, dict) else ""
        nm = fname(f) if isinstance(f, dict) else ""
        D = [self.deref(st, a) for a in args]
        if it in ("len",) and len(args) == 1 and ("slice" in nm or "str" in nm or "Vec" in nm or "String" in nm):
            return [(st, self.length(st, args[0]))]
        if it in ("as_bytes", "as_slice", "as_str", "deref", "borrow", "as_ref", "clone", "to_owned", "to_vec", "into_iter", "copied", "cloned", "iter", "to_string", "as_mut") and len(args) == 1 \
                and isinstance(D[0], tuple) and D[0] and D[0][0] in ("sl", "bytes", "str", "lin", "agg"):
            if it not in ("into_iter", "iter", "copied", "cloned"):
                return [(st, D[0])]
        if it == "into_iter" and len(args) == 1 and isinstance(D[0], tuple) and D[0][0] == "agg" and self.isrange(D[0]):
            return [(st, D[0])]
        if it == "next" and len(args) == 1 and isinstance(D[0], tuple) and D[0][0] == "agg" and self.isrange(D[0]) and args[0][0] == "ref":
            lo, hi = D[0][3]
            out = []
            for s, x in self.cond(st, self.binop(st, "Lt", lo, hi, None)):
                if x:
                    s = s.copy()
                    self.put(s, args[0][1], list(args[0][2]), (D[0][0], D[0][1], D[0][2], (add(lo, K(1)), hi)))
                out.append((s, self.some(lo) if x else self.NONE))
            return out
        if it == "from_ref" and len(args) == 1 and D[0] is not None and ("slice" in nm or "array" in nm):
            return [(st, ("refv", ("agg", "array", 0, (D[0],))))]
        if it == "is_empty" and len(args) == 1:
            return [(st, self.binop(st, "Eq", self.length(st, args[0]), K(0), "usize"))]
        if it in ("index", "get", "get_unchecked", "split_at") and len(args) == 2 and isinstance(D[0], tuple) and D[0][0] == "sl":
            return self.sliced(st, bi, it, D[0], D[1])
        if it == "try_into" and isinstance(D[0], tuple) and D[0][0] == "sl":
            m = re.search(r"TryInto<\[u8; (\d+)\]>|\[u8; (\d+)\]", dt)
            if m:
                n = int(m.group(1) or m.group(2))
                r = self.zero(st, add(self.length(st, D[0]), K(-n)))
                if r is True:
                    return [(st, self.okv(D[0]))]
        if it == "first" and isinstance(D[0], tuple) and D[0][0] == "sl":
            return self.sliced(st, bi, "get", D[0], K(0))
        if it in ("from_be_bytes", "from_le_bytes"):
            bs = self.bytes_of(st, D[0], bits_of(dt) // 8 if dt in INTS else None)
            if bs is not None:
                if it == "from_le_bytes":
                    bs = bs[::-1]
                v = self.be(bs)
                return [(st, self.wrapto(v, dt))]
        if it in ("to_be_bytes", "to_le_bytes", "to_ne_bytes") and is_lin(D[0]):
            ty = nm.split("<impl ")[-1].split(">")[0] if "<impl " in nm else None
            if ty in INTS:
                bs = tuple(self.byte(D[0], i) for i in range(bits_of(ty) // 8))
                return [(st, ("agg", "array", 0, bs[::-1] if it == "to_be_bytes" else bs))]
        if it in ("try_from", "try_into") and is_lin(D[0]):
            ty = None
            m = re.search(r"Result<([iu]\w+),", dt)
            if m and m.group(1) in INTS:
                ty = m.group(1)
            if ty:
                lo, hi = INTS[ty]
                out = []
                for s, x in self.cond(st, ("and", self.binop(st, "Ge", D[0], K(lo), None), self.binop(st, "Le", D[0], K(hi), None))):
                    out.append((s, self.okv(D[0]) if x else self.errv(("sym", "out of range"))))
                return out
        if it in ("from", "into") and is_lin(D[0]) and dt in INTS:
            return [(st, self.wrapto(D[0], dt))]
        if it == "from" and isinstance(D[0], bool) and dt in INTS:
            return [(st, K(int(D[0])))]
        if it in ("eq", "ne", "lt", "le", "gt", "ge") and len(D) == 2 and all(is_lin(x) or isinstance(x, bool) for x in D):
            return [(st, self.binop(st, it.capitalize(), D[0], D[1], None))]
        if it in ("eq", "ne") and len(D) == 2:
            a, b = D
            if all(x[0] in ("bytes", "sl", "str") for x in D):
                return [(st, ("sym", ("eq", a, b)) if it == "eq" else ("not", ("sym", ("eq", a, b))))]
        if it == "contains" and len(D) == 2 and D[0][0] == "agg" and is_lin(D[1]):
            se = self.ranged(D[0], None)
            if se and all(x is not None and is_lin(x) for x in se):
                a = self.binop(st, "Ge", D[1], se[0], None)
                b = self.binop(st, "Lt", D[1], se[1], None)
                if isinstance(a, bool) and isinstance(b, bool):
                    return [(st, a and b)]
                return [(st, ("and", a, b))]
        if it == "new" and "RangeInclusive" in nm and len(args) == 2:
            return [(st, ("agg", "core::ops::RangeInclusive", 0, (args[0], args[1])))]
        m = re.match(r"(wrapping|unchecked|checked|saturating|overflowing)_(add|sub|mul)$", it)
        if m and len(D) == 2 and all(is_lin(x) for x in D):
            v = self.arith(st, m.group(2).capitalize(), D[0], D[1])
            ty = nm.split("<impl ")[-1].split(">")[0] if "<impl " in nm else dt
            if v is not None and ty in INTS:
                lo, hi = INTS[ty]
                if m.group(1) in ("wrapping", "unchecked"):
                    return [(st, self.wrapto(v, ty))]
                out = []
                for s, x in self.cond(st, ("and", self.binop(st, "Ge", v, K(lo), None), self.binop(st, "Le", v, K(hi), None))):
                    if m.group(1) == "checked":
                        out.append((s, self.some(v) if x else self.NONE))
                    elif m.group(1) == "saturating":
                        out.append((s, v if x else self.opaque(("sat", v, ty), ty)))
                    else:
                        return [(st, ("agg", "tuple", 0, (self.wrapto(v, ty), ("sym", ("overflow", v)))))]
                return out
        return [(st, self.opaque(("call", it, tuple(self.name(x) if isinstance(x, tuple) else x for x in D), bi), dt))]

    def bytes_of(self, st, v, n):
        if v[0] == "sl":
            ln = num(self.length(st, v))
            if ln is None:
                z = n is not None and self.zero(st, add(self.length(st, v), K(-n)))
                if not z:
                    return None
                ln = n
            return [self.inbyte(v[1], add(v[2], K(i))) for i in range(ln)]
        if v[0] == "agg" and v[1] == "array":
            return list(v[3])
        if v[0] == "bytes":
            return [K(x) for x in v[1]]
        return None

    def sliced(self, st, bi, it, v, i):
        """indexing: what is out of bounds is reported as such"""
        n = self.length(st, v)
        if is_lin(i):
            want = ("and", self.binop(st, "Ge", i, K(0), None), self.binop(st, "Lt", i, n, None))
            val = self.inbyte(v[1], add(v[2], i))
            val = val if it != "index" else ("refv", val)
        else:
            se = self.ranged(i, n)
            if se is None or not all(x is not None and is_lin(x) for x in se):
                return [(st, ("sym", ("[..]", v, i)))]
            a, b = se
            want = ("and", self.binop(st, "Le", a, b, None), self.binop(st, "Le", b, n, None))
            val = ("sl", v[1], add(v[2], a), add(v[2], b))
        out = []
        for s, x in self.cond(st, want):
            if it == "index":
                if x:
                    out.append((s, val))
                else:
                    self.outs.append(("panic", "index out of bounds", s, bi))
            elif it == "get":
                out.append((s, self.some(val if not is_lin(val) else ("refv", val)) if x else self.NONE))
            else:
                return [(st, ("sym", ("[..]", v, i)))]
        return out

    def call(self, st, bi, f, args, t, dt):
        return None
