"""The builder's own collections: the bit set of initialized fields, and the map of what is kept track of (part of C18).

The bit set is decided in a known-bits domain: a word is 64 bits, each 0, 1, a bit of the set as it was (or its negation), or unknown; one pass per index."""
from . import flow, poly, vt
from .poly import bare, fld, item_of
from .c_peek import label
from .c_wip import program, flat, const, W, ISET, VID

T = None  # unknown


class Undecided(Exception):
    pass


class Word:
    """64 bits, least significant first"""

    def __init__(self, bits):
        self.b = list(bits)

    @staticmethod
    def of(n):
        return Word((n >> i) & 1 for i in range(64))

    def num(self):
        n = 0
        for i, x in enumerate(self.b):
            if x not in (0, 1):
                return None
            n |= x << i
        return n


def neg(x):
    return T if x is T else 1 - x if x in (0, 1) else (x[0], not x[1])


def and1(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1 or x == y:
        return x
    if x is not T and y is not T and x == neg(y):
        return 0
    return T


def or1(x, y):
    return neg(and1(neg(x), neg(y)))


def xor1(x, y):
    if x is T or y is T:
        return T
    if x in (0, 1):
        return neg(y) if x else y
    if y in (0, 1):
        return neg(x) if y else x
    return 0 if x == y else 1 if x == neg(y) else T


# a truth value: True, False, ("and", literals), ("or", literals), or None
def all_of(lits):
    s = set()
    for x in lits:
        if x is T:
            return T
        if x == 0:
            return False
        if x != 1:
            s.add(x)
    if any(neg(x) in s for x in s):
        return False
    return ("and", frozenset(s)) if s else True


def notb(v):
    if v is T:
        return T
    if isinstance(v, bool):
        return not v
    return ({"and": "or", "or": "and"}[v[0]], frozenset(neg(x) for x in v[1]))


def equal(a, b):
    return all_of([neg(xor1(x, y)) for x, y in zip(a.b, b.b)])


class Run:
    """one pass over a function's graph for one value of its index argument"""

    def __init__(self, g, index, is_self):
        self.g, self.index = g, index
        self.is_self = is_self
        self.outs = []   # (kind, set at the end, returned)
        n = 0
        old = Word([(i, True) for i in range(64)])
        todo = [(g.entry, {"self": old})]
        while todo:
            n += 1
            if n > 4000:
                raise Undecided()
            bi, env = todo.pop()
            todo += self.block(bi, env)

    def place(self, p, env):
        l, pr = p
        fs = [x for x in pr if x != "*"]
        if self.is_self(l) and len(fs) <= 1 and all(isinstance(x, list) and x[0] == "f" and x[2] == "0" for x in fs):
            return env["self"] if fs else ("self",)
        v = env.get(l)
        for x in pr:
            if isinstance(v, tuple) and v and v[0] == "ref":
                if x == "*":
                    v = self.place(v[1], env)
                    continue
            if v == ("self",):
                if x == "*":
                    continue
                if isinstance(x, list) and x[0] == "f" and x[2] == "0":
                    v = env["self"]
                    continue
            if isinstance(x, list) and x[0] == "f" and isinstance(v, tuple) and v and v[0] == "tuple":
                v = v[1][x[1]]
                continue
            return T
        return v

    def op(self, o, env):
        if o[0] == "k":
            c = o[1]
            return int(c["bits"]) if "bits" in c else T
        return self.place(o[1], env)

    def word(self, v):
        return Word.of(v) if isinstance(v, int) and not isinstance(v, bool) else v if isinstance(v, Word) else None

    def rv(self, rv, env):
        k = rv[0]
        if k == "use":
            return self.op(rv[1], env)
        if k == "ref":
            v = self.place(rv[2], env)
            if v == ("self",):
                return v
            return ("ref", rv[2])
        if k == "cast":
            v = self.op(rv[2], env)
            return v if isinstance(v, int) else T
        if k == "agg":
            return ("tuple", [self.op(o, env) for o in rv[2]])
        if k == "un" and rv[1] == "Not":
            v = self.op(rv[2], env)
            if isinstance(v, bool) or (isinstance(v, tuple) and v[0] in ("and", "or")):
                return notb(v)
            w = self.word(v)
            return Word(neg(x) for x in w.b) if w else T
        if k == "bin":
            a, b = self.op(rv[2], env), self.op(rv[3], env)
            return self.bin(rv[1], a, b)
        return T

    def bin(self, op, a, b):
        if op.endswith("WithOverflow"):
            return ("tuple", [self.bin(op[:-12], a, b), T])
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            M = (1 << 64) - 1
            if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and b >= 64:
                return T
            f = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
                 "Shl": lambda: (a << b) & M, "Shr": lambda: a >> b, "Add": lambda: (a + b) & M, "Sub": lambda: (a - b) & M, "Mul": lambda: (a * b) & M,
                 "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Div": lambda: a // b if b else T, "Rem": lambda: a % b if b else T}.get(op)
            return f() if f else T
        w, x = self.word(a), self.word(b)
        if op in ("Shl", "Shr") and w and isinstance(b, int):
            if b >= 64:
                return T
            return Word([0] * b + w.b[:64 - b]) if op == "Shl" else Word(w.b[b:] + [0] * b)
        if w is None or x is None:
            return T
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": and1, "BitOr": or1, "BitXor": xor1}[op]
            return Word(f(p, q) for p, q in zip(w.b, x.b))
        if op == "Eq":
            return equal(w, x)
        if op == "Ne":
            return notb(equal(w, x))
        if op == "Gt" and x.num() == 0:
            return notb(equal(w, x))
        return T

    def block(self, bi, env):
        g = self.g
        env = dict(env)
        for s in g.blocks[bi]["s"]:
            if s[0] == "=":
                self.store(s[1], self.rv(s[2], env), env)
        t = g.blocks[bi]["t"]
        k = t[0]
        if k == "ret":
            self.outs.append(("ret", env["self"], env.get(0)))
            return []
        if k == "switch":
            v = self.op(t[1], env)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return [(x, env) for w, x in t[2] if int(w) == v][:1] or [(t[3], env)]
            if isinstance(v, tuple) and v[0] in ("and", "or"):
                # split on one bit at a time
                lit = next(iter(sorted(v[1])))
                return [(bi2, e2) for bit in (0, 1) for bi2, e2 in self.split(bi, lit[0], bit, env)]
            raise Undecided()
        if k == "assert":
            v = self.op(t[1], env)
            if isinstance(v, bool) and v != t[2]:
                self.outs.append(("overflow", None, None))
                return []
            return [(x, env) for x in self.g.succs(bi) if x is not None][:1]
        if k == "call":
            f = g.fnval(t)
            it = item_of(f) if isinstance(f, dict) else ""
            ss = [x for x in g.succs(bi) if x is not None]
            if not ss or (isinstance(f, dict) and f.get("never")):
                self.outs.append(("panic", None, None))
                return []
            a = [self.op(o, env) for o in t[2]]
            v = T
            if it == "len" or it in ("new_display", "new_debug", "new", "new_const", "new_v1"):
                v = self.index if it == "len" else T
            elif it in ("wrapping_shl", "wrapping_shr") and isinstance(a[1], int):
                v = self.bin("Shl" if it.endswith("l") else "Shr", a[0], a[1] % 64)
            elif it in ("wrapping_sub", "wrapping_add") and len(a) == 2:
                v = self.bin({"sub": "Sub", "add": "Add"}[it[9:]], a[0], a[1])
            elif it in ("default", "empty") and not a:
                v = ("tuple", [0])
            else:
                raise Undecided()
            self.store(t[3], v, env)
            return [(ss[0], env)]
        if k == "unreachable":
            return []
        ss = [x for x in g.succs(bi) if x is not None]
        if k in ("goto", "drop") and ss:
            return [(ss[0], env)]
        self.outs.append(("panic", None, None))
        return []

    def split(self, bi, j, bit, env):
        """the branches taken when bit j of the set was so"""
        def sub(v):
            if isinstance(v, Word):
                return Word((bit if x[1] else 1 - bit) if isinstance(x, tuple) and x[0] == j else x for x in v.b)
            if isinstance(v, tuple) and v and v[0] in ("and", "or"):
                ls = [(bit if x[1] else 1 - bit) if x[0] == j else x for x in v[1]]
                return all_of(ls) if v[0] == "and" else notb(all_of([neg(x) for x in ls]))
            if isinstance(v, tuple) and v and v[0] == "tuple":
                return ("tuple", [sub(x) for x in v[1]])
            return v
        e = {k: sub(v) for k, v in env.items()}
        e["known"] = e.get("known", ()) + ((j, bit),)
        # the statements were already run: only the branch is looked at again
        t = self.g.blocks[bi]["t"]
        v = self.op(t[1], e)
        if isinstance(v, bool):
            return [(x, e) for w, x in t[2] if int(w) == int(v)][:1] or [(t[3], e)]
        if isinstance(v, tuple) and v[0] in ("and", "or"):
            lit = next(iter(sorted(v[1])))
            return [y for b in (0, 1) for y in self.split(bi, lit[0], b, e)]
        raise Undecided()

    def store(self, p, v, env):
        l, pr = p
        fs = [x for x in pr if x != "*"]
        if not pr:
            env[l] = v
            return
        if self.is_self(l) or env.get(l) == ("self",):
            if not fs and isinstance(v, tuple) and v and v[0] == "tuple":
                v = v[1][0]
            w = self.word(v)
            env["self"] = w if w else Word([T] * 64)
            return
        env[l] = T


def norm(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return {0: False, 1: True}.get(v, T)
    if isinstance(v, tuple) and v and v[0] == "or" and len(v[1]) == 1:
        return ("and", v[1])
    return v


def iset(p, r):
    by = {}
    for f in p.P.fns.values():
        if f.crate is p.c and f.id.startswith(W) and poly.self_ty(f) == ISET and f.body is not None and f.raw.get("kind") == "AssocFn":
            by[f.raw.get("item")] = f

    def decide(name, idxs, want):
        f = by.get(name)
        if f is None:
            return
        g = flow.Graph(p.P, f, p.policy, cap=5000)
        at = ":".join(str(f.raw.get("span", "?")).split(":")[:2])
        what = {"set": "sets", "unset": "unsets", "has": "tells about", "are_all_set": "tells about", "is_any_set": "tells about", "clear": "clears"}[name]
        bad = None
        try:
            for i in idxs:
                # the index is a usize argument
                x = Indexed(g, i, lambda l: l == 1)
                m = want(i, x.outs)
                if m and bad is None:
                    bad = (i, m)
        except Undecided:
            r.count("set operations undecided")
            return
        r.count("set operations")
        r.check(bad is None, "ISet::" + name, "ISet::%s %s when asked about %s" % (name, bad[1] if bad else "", bad[0] if bad else ""), at, "ISet::%s %s exactly the fields asked for" % (name, what))

    def bits(i, val):
        return [val if j == i else (j, True) for j in range(64)]

    def writes(val):
        def want(i, outs):
            for k, s, v in outs:
                if i <= 63 and k != "ret":
                    return "panics"
                if i > 63 and k in ("ret", "overflow"):
                    return "goes on (marking another field)"
                if k == "ret" and s.b != bits(i, val):
                    if any(y is T for y in s.b):
                        raise Undecided()
                    return "changes other fields, or not this one"
            return None if outs else "never ends"
        return want

    def tells(lits, most):
        def want(i, outs):
            for k, s, v in outs:
                if i <= most and k != "ret":
                    return "panics"
                if i > most and k in ("ret", "overflow") and norm(v) is not False:
                    return "goes on (asking about another field)"
                if k != "ret" or i > most:
                    continue
                v = norm(v)
                if v is T:
                    raise Undecided()
                if len(outs) > 1:
                    raise Undecided()
                w = all_of([(j, True) for j in lits(i)])
                if v != w:
                    return "answers about other fields"
            return None if outs else "never ends"
        return want

    def anyset(i, outs):
        for k, s, v in outs:
            if k != "ret":
                return "panics"
            v = norm(v)
            if v is T or len(outs) > 1:
                raise Undecided()
            if v != ("or", frozenset((j, True) for j in range(64))):
                return "answers about some of the fields only"

    def clears(i, outs):
        for k, s, v in outs:
            if k != "ret" or any(x is T for x in s.b):
                raise Undecided()
            if s.num() != 0:
                return "leaves fields set"
    decide("set", range(66), writes(1))
    decide("unset", range(66), writes(0))
    decide("has", range(66), tells(lambda i: [i], 63))
    decide("are_all_set", range(67), tells(lambda n: range(n), 64))
    decide("is_any_set", [0], anyset)
    decide("clear", [0], clears)
    if "all" in by:
        whole(p, by["all"], r)


class Indexed(Run):
    """the argument after self is the index"""

    def place(self, p, env):
        if p[0] == 2 and not p[1] and 2 not in env:
            return self.index
        if p[0] == 2 and p[1] == ["*"]:
            return self.index
        return super().place(p, env)


def whole(p, f, r):
    """the set of all fields is made by setting each"""
    rt = p.root(f)
    fam = rt.fams[0]
    g = fam.g
    sets = [bi for bi in g.reachable() if g.blocks[bi]["t"][0] == "call" and isinstance(g.fnval(g.blocks[bi]["t"]), dict) and item_of(g.fnval(g.blocks[bi]["t"])) == "set"]
    if len(sets) != 1:
        # inlined, or by arithmetic
        r.count("set operations undecided")
        return
    t = g.blocks[sets[0]]["t"]
    e = fam.res(g.expr(t[2][1]))
    if partial(e) and any(x == ("p", 0) for x in flow.walk(e)):
        r.count("set operations")
        r.bad("ISet::all", "ISet::all leaves out some of the fields", rt.at)
        return
    i = poly.index(rt, e, True)
    if not i or i[0] != "it":
        r.count("set operations undecided")
        return
    lp = i[1]
    s = poly.iter_src(fam.res(g.expr(g.blocks[lp]["t"][2][0])), True)
    good = s is not None and bare(s[0]) == ("p", 0) and not partial(fam.res(g.expr(g.blocks[lp]["t"][2][0])))
    r.count("set operations")

    def assume(kind, a):
        if kind == "discr":
            x = bare(a[0])
            if x[0] == "call" and x[3] == lp:
                return 1
        return None
    got = set()

    def step(st, x, bi):
        if st == 9:
            return st
        if x == "next":
            got.add(st)
            return 9
        return st + 1 if st < 8 else st
    start = [b for b in g.succs(lp) if b is not None][0]
    outs = rt.outcomes(fam, assume, start=start, auto=(0, {lp: ["next"], sets[0]: ["set"]}, step))
    r.check(good and got == {1} and all(st == 9 for st, v in outs), "ISet::all", "ISet::all leaves out some of the fields", rt.at, "ISet::all sets every field")


PARTIAL = ("skip", "take", "filter", "step_by", "skip_while", "take_while", "filter_map", "map_while", "chunks", "windows")


def partial(e):
    """does an iterator leave out some of what it goes through?"""
    return any(x[0] == "call" and item_of(x[1]) in PARTIAL for x in flow.walk(e))


# ---------------------------------------------------------------- the map of what is kept track of
def flatmap(p, r):
    by = {}
    for f in p.P.fns.values():
        if f.crate is p.c and f.id.startswith(W) and (poly.self_ty(f) or "").endswith("::FlatMap") and f.body is not None and f.raw.get("kind") == "AssocFn":
            by[f.raw.get("item")] = f
    for name in ("get", "get_mut", "remove", "remove_entry", "insert"):
        if name in by:
            lookup(p, by[name], name, r)
    if "insert_unchecked" in by:
        rt = p.root(by["insert_unchecked"])
        fam = rt.fams[0]
        ps = {}
        for bi in sorted(fam.g.reachable()):
            t = fam.g.blocks[bi]["t"]
            if t[0] == "call" and isinstance(fam.g.fnval(t), dict) and item_of(fam.g.fnval(t)) == "push" and len(t[2]) == 2:
                x = bare(fam.res(fam.g.expr(t[2][1])))
                ps[bi] = ["p" if x[0] == "agg" and [bare(y) for y in x[2]] == [("p", 1), ("p", 2)] else "?"]
        outs = {st for st, x in rt.outcomes(fam, lambda k, a: None, auto=("", ps, lambda st, x, bi: (st + x)[:3]))}
        r.check(outs == {"p"}, "FlatMap::insert_unchecked", "FlatMap::insert_unchecked doesn't add the entry as given", rt.at, "FlatMap::insert_unchecked: the entry is added")
    for name in ("iter", "keys", "iter_mut", "values"):
        if name in by:
            rt = p.root(by[name])
            e = rt.fams[0].res(rt.fams[0].g.local_expr(0))
            r.check(not partial(e), "FlatMap::" + name, "FlatMap::%s leaves out some entries" % name, rt.at, "FlatMap::%s: every entry" % name)


def lookup(p, f, name, r):
    rt = p.root(f)
    fam = rt.fams[0]
    g = fam.g
    nm = "FlatMap::" + name
    pos = [bi for bi in sorted(g.reachable()) if g.blocks[bi]["t"][0] == "call" and isinstance(g.fnval(g.blocks[bi]["t"]), dict)
           and item_of(g.fnval(g.blocks[bi]["t"])) in ("position", "rposition", "find", "find_map")]
    if len(pos) != 1:
        r.count("map operations undecided")
        return
    b = pos[0]
    r.count("map operations")
    src = fam.res(g.expr(g.blocks[b]["t"][2][0]))
    r.check(not partial(src), nm + ":partial", "%s leaves out some entries" % nm, g.where(b))
    for cf in rt.fams:
        if cf.at and cf.at[0] is fam and cf.at[1] == b:
            for v in (0, 1):
                seen = []

                def assume(kind, a, v=v):
                    if kind == "eq":
                        it = [any(y[0] == "item" for y in flow.walk(bare(x))) for x in a]
                        ps = [not i and any(y == ("p", 1) for y in flow.walk(bare(x))) for i, x in zip(it, a)]
                        if sorted(zip(it, ps)) == [(False, True), (True, False)]:
                            seen.append(1)
                            return v
                    return None
                outs = {x[1] for x in rt.outcomes(cf, assume)}
                r.check(bool(seen) and outs == {v}, nm + ":key", "%s finds an entry by something else than its key" % nm, g.where(b), "%s: by key" % nm)
    # what was found is what is used
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        if t[0] != "call" or not isinstance(g.fnval(t), dict):
            continue
        it = item_of(g.fnval(t))
        if it in ("remove", "swap_remove", "index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(t[2]) == 2 and fld(fam.res(g.expr(t[2][0])), "inner") is not None:
            i = bare(fam.res(g.expr(t[2][1])))
            good = i[0] == "." and i[4] == "Some" and bare(i[1])[0] == "call" and bare(i[1])[3] == b
            r.check(good, nm + ":entry", "%s uses another entry than the one it found" % nm, g.where(bi), "%s: the entry found" % nm)
    if name != "insert":
        for v in (0, 1):
            def assume(kind, a, v=v):
                if kind == "discr":
                    x = bare(a[0])
                    if x[0] == "call" and x[3] == b:
                        return v
                return None
            outs = {x[1][1] if isinstance(x[1], tuple) and x[1][0] == "v" else None for x in rt.outcomes(fam, assume)}
            r.check(outs == {"Some" if v else "None"} or None in outs, nm + ":found:%d" % v, "%s %s" % (nm, "doesn't answer with the entry it found" if v else "answers with an entry it didn't find"), rt.at, "%s: found or not" % nm)
        return
    pushes = {}
    sets = {}
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        if t[0] == "call" and isinstance(g.fnval(t), dict):
            it = item_of(g.fnval(t))
            if it == "insert_unchecked" and len(t[2]) == 3:
                pushes[bi] = [bare(fam.res(g.expr(y))) for y in t[2]] == [("p", 0), ("p", 1), ("p", 2)]
            if it == "push" and fld(fam.res(g.expr(t[2][0])), "inner") is not None:
                x = bare(fam.res(g.expr(t[2][1])))
                ok_ = x[0] == "agg" and [bare(y) for y in x[2]] == [("p", 1), ("p", 2)]
                pushes[bi] = ok_
            if it in ("swap", "replace"):
                sets[bi] = True
    for v in (0, 1):
        def assume(kind, a, v=v):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] == b:
                    return v
            return None
        evs = {bi: ["p"] for bi in pushes}
        for bi in sets:
            evs[bi] = evs.get(bi, []) + ["s"]
        outs = {st for st, x in rt.outcomes(fam, assume, auto=("", evs, lambda st, x, bi: (st + x)[:3]))}
        if v == 0:
            r.check(outs == {"p"} and all(pushes.values()), nm + ":new", "%s doesn't add a new entry as given" % nm, rt.at, "%s: a new entry is added" % nm)
        elif sets:
            r.check(outs == {"s"}, nm + ":old", "%s keeps two entries for one key, or the old one" % nm, rt.at, "%s: an entry is replaced" % nm)


def ids(p, r):
    """two values are the same one when both their shape and their address are"""
    for f in p.P.fns.values():
        if f.crate is p.c and poly.self_ty(f) == VID and poly.trait_of(f) and f.raw.get("item") == "eq" and f.body is not None:
            rt = p.root(f)
            fam = rt.fams[0]
            for part in ("shape", "ptr"):
                seen = []

                def assume(kind, a):
                    if kind == "eq":
                        q = [fld(x, part) is not None or any(y[0] == "." and y[3] == part for y in flow.walk(bare(x))) for x in a]
                        if all(q):
                            seen.append(1)
                            return 0
                        return 1
                    return None
                outs = {x[1] for x in rt.outcomes(fam, assume)}
                r.check(outs == {0} and bool(seen), "ValueId::eq:" + part, "two values with another %s count as the same one" % ("shape" if part == "shape" else "address"), rt.at, "ValueId: told apart by %s" % part)


def collections(fx, r):
    p = program(fx)
    iset(p, r)
    flatmap(p, r)
    ids(p, r)
