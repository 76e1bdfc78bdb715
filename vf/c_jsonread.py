"""JSON: what the reader makes of its input."""
import heapq
import os
import re
import time
from . import facts, flow, vt
from .absint import Interp, State, Undecided, INTS, K, add, atom, is_lin, mul, num
from .poly import item_of
from .vt import fname
from .c_json import CLASSES, Js, places, policy, program, CR
from .c_msgpack import targ, okret

BIG = (1 << 63) - 1
MODULE = "::deserialize::"


def strings(fx, p, r):
    pass


def enums(fx):
    """names of types with several variants"""
    out = {"core::option::Option", "core::result::Result", "std::option::Option", "std::result::Result"}
    for c in ("facet_core", "facet_reflect", CR):
        out |= {a["id"] for a in fx.crate(c).d["adts"] if len(a.get("variants") or ()) > 1}
    return out


def structural(fx):
    """types that are equal when their contents are"""
    if not hasattr(fx, "structural_names"):
        out = set()
        for n in ("facet_core", "facet_reflect", CR):
            c = fx.crate(n)
            out |= {c.d["types"][i["self"]].get("def") for i in c.d["impls"] if i.get("trait") == "core::marker::StructuralPartialEq"}
        fx.structural_names = out
    return fx.structural_names


class Fresh:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "~%d" % self.n


def livein(g):
    """(block -> locals that may be read from there on, blocks where paths meet); g._order: a reverse postorder"""
    use, kill = {}, {}
    blocks = sorted(g.reachable())
    for bi in blocks:
        u, k = set(), set()
        b = g.blocks[bi]

        def read(x):
            o = set()
            places(x, o)
            u.update(o - k)
        for s in b["s"]:
            if s[0] != "=":
                continue
            read(s[2])
            if s[1][1]:
                read(s[1])
            else:
                k.add(s[1][0])
        t = b["t"]
        if t[0] == "call":
            read(t[1])
            read(t[2])
            if t[3][1]:
                read(t[3])
            else:
                k.add(t[3][0])
        elif t[0] in ("switch", "assert"):
            read(t[1])
        elif t[0] == "ret":
            read([b.get("ret", 0), []])
        use[bi], kill[bi] = u, k
    pred = {}
    for bi in blocks:
        for s in g.succs(bi):
            if s is not None:
                pred.setdefault(s, set()).add(bi)
    inn = {bi: set(use[bi]) for bi in blocks}
    todo = list(blocks)
    while todo:
        bi = todo.pop()
        for q in pred.get(bi, ()):
            if q in inn:
                new = (inn[bi] - kill[q]) - inn[q]
                if new:
                    inn[q] |= new
                    todo.append(q)
    # what borrows a local may read it for as long as the reference lives, and so is found through the reference
    post, seen = [], {g.entry}
    stack = [(g.entry, iter([x for x in g.succs(g.entry) if x is not None]))]
    while stack:
        b, it = stack[-1]
        n = next(it, None)
        if n is None:
            post.append(b)
            stack.pop()
        elif n not in seen:
            seen.add(n)
            stack.append((n, iter([x for x in g.succs(n) if x is not None])))
    g._order = {b: i for i, b in enumerate(reversed(post))}
    return inn, {b for b in blocks if len(pred.get(b, ())) > 1}


class Read(Js):
    """every loop once, from any state its invariants allow; the invariants are found by dropping those that don't hold"""
    LIMIT = 400000
    ghosts = ()             # conditions to remember, if only that there was one

    def __init__(self, g, fx, contract, dropped=None):
        Js.__init__(self, g)
        self.enums = fx.enum_names if hasattr(fx, "enum_names") else enums(fx)
        fx.enum_names = self.enums
        self.structural = structural(fx)
        self.contract = contract      # functions that are judged on their own
        self.dropped = dropped if dropped is not None else set()
        self.lens = []
        self.inits, self.moves = [], []
        self.frs, self.bys, self.most = {}, {}, {}
        self.newsl = []
        self.cells = []

    # ------------------------------------------------------------ loops
    def new(self):
        self.fresh += 1
        return Fresh(self.fresh)

    def run(self):
        self.until = time.time() + 300
        while True:
            self.outs, self.inits, self.moves, self.more = [], [], [], False
            self.fresh, self.met = 0, {}
            self.explore()
            if not self.more:
                return self.outs

    def explore(self):
        g = self.g
        if not hasattr(g, "_livein"):
            g._livein = livein(g)
        joins, order = g._livein[1], g._order
        todo, n, seq = [], 0, 0
        heapq.heappush(todo, (order[g.entry], 0, g.entry, self.start(), None))
        while todo:
            n += 1
            if n > self.LIMIT or n % 256 == 0 and time.time() > self.until:
                raise Undecided("too many paths")
            _, _, bi, st, frm = heapq.heappop(todo)
            st = self.enter(st, bi, frm)
            if st is None:
                continue
            st = st.copy()
            if bi in joins:
                st = self.meet(st, bi)
                if st is None:
                    continue
            for b2, s2 in self.block(bi, st):
                seq += 1
                heapq.heappush(todo, (order[b2], seq, b2, s2, bi))

    def meet(self, st, bi):
        """a state with nothing in it that can't matter any more, or None if one as general has been here"""
        live = self.g._livein[0][bi]
        st.loops = tuple(h for h in st.loops if bi in self.heads[h])
        ev = []
        for h in st.loops:
            e = next((e for e in reversed(st.events) if e[0] == "enter" and e[1] == h), None)
            if e is not None:
                ev.append(e)
        st.events = tuple(ev)
        names = {}

        def name(v):
            if isinstance(v, Fresh):
                if v not in names:
                    names[v] = ("~", len(names))
                return names[v]
            if isinstance(v, tuple):
                if not self.hasfresh(v):
                    if v and v[0] == "ref" and len(v) == 3:
                        todo.append(v[1])
                    elif v:
                        for x in v:
                            if isinstance(x, tuple):
                                name(x)
                    return v
                if v and v[0] == "ref" and len(v) == 3:
                    todo.append(v[1])
                return tuple(name(x) for x in v)
            return v
        todo = sorted(l for l in live if l in st.mem)
        for e in ev:
            todo += [root for root, _, _, _ in e[2]]
        todo += self.cells
        mem, key = {}, []
        i = 0
        while i < len(todo):
            root = todo[i]
            i += 1
            if root in mem or root not in st.mem:
                continue
            mem[root] = st.mem[root]
            key.append((name(root), name(st.mem[root])))
        st.mem = mem
        key.append(tuple((e[1], tuple((root, path, name(now)) for root, path, _, now in e[2])) for e in ev))
        key.append(st.loops)

        bytes_ = set()
        for v in mem.values():
            self.bytesin(v, bytes_)
        bytes_ |= self.alsobytes(st)

        def kept(v):
            return all(x in names for x in self.freshes(v))
        facts = {}
        st.conds = dict(st.conds)
        for f in self.rid(st.facts, st.conds, kept):
            if not kept(f):
                continue
            b = set()
            self.bytesin(f, b)
            if b - bytes_:
                # all that is still of interest of a byte that was looked at
                for x in b - bytes_:
                    f = add(K(127), ("lin", 0, ((x, 1),)), -1)
                    if self.holds(st, f) is True:
                        facts[f] = True
            else:
                facts[f] = True
        st.facts = tuple(facts)
        conds = {}
        for k, v in st.conds.items():
            if not (kept(k) and kept(v)):
                if k in self.ghosts:
                    conds[k] = "gone"
                continue
            if isinstance(k, tuple) and k[0] == "inv" and k[1][0] not in st.loops:
                continue
            if isinstance(k, tuple) and k[0] not in ("ascii", "inv"):
                b = set()
                self.bytesin(k, b)
                if b - bytes_:
                    continue
            conds[k] = v
        st.conds = conds
        for a, rg in self.ranges.items():
            fr = self.freshes(a)
            if fr and all(x in names for x in fr):
                key.append((name(a), rg))
        key = tuple(key)
        have = frozenset([name(f) for f in st.facts] + [(name(k), name(v)) for k, v in st.conds.items()])
        seen = self.met.setdefault(bi, {}).setdefault(key, [])
        if any(x <= have for x in seen):
            return None
        back = {v: k for k, v in names.items()}

        def unname(v):
            if isinstance(v, tuple):
                if v in back:
                    return back[v]
                return tuple(unname(x) for x in v)
            return v
        for x in seen[:6]:
            if all(y[0] == "lin" and self.holds(st, unname(y)) is True for y in x - have):
                return None
        seen.append(have)
        return st

    def alsobytes(self, st):
        return set()

    def rid(self, facts, conds, kept):
        """what is known, with things that will be forgotten put in terms of what they equal"""
        have = set(facts)
        for f in facts:
            if kept(f) or mul(f, -1) not in have:
                continue
            dead = [(a, k) for a, k in f[2] if not kept(a)]
            if len(dead) == 1 and abs(dead[0][1]) == 1:
                a, k = dead[0]

                def put(x):
                    c = dict(x[2]).get(a, 0)
                    return add(x, mul(f, -c * k)) if c else x
                for key, v in conds.items():
                    if isinstance(key, tuple) and key[0] == "ascii":
                        conds[key] = (put(v[0]), put(v[1]))
                return self.rid(tuple(put(x) for x in facts if x not in (f, mul(f, -1))), conds, kept)
        return facts

    def freshes(self, v):
        if isinstance(v, Fresh):
            return (v,)
        if not isinstance(v, tuple):
            return ()
        r = self.frs.get(v)
        if r is None:
            r = set()
            for x in v:
                r.update(self.freshes(x))
            r = self.frs[v] = tuple(r)
        return r

    def bytesin(self, v, out):
        """the input's bytes that a value is made of"""
        out |= self._bytesin(v)

    def _bytesin(self, v):
        if not isinstance(v, tuple):
            return frozenset()
        r = self.bys.get(v)
        if r is None:
            if v and v[0] == "byte":
                r = frozenset([v])
            else:
                r = frozenset().union(*[self._bytesin(x) for x in v])
            self.bys[v] = r
        return r

    def hasfresh(self, v):
        return bool(self.freshes(v))

    def counted(self, st, bi, body):
        """a loop over a handful of things is taken turn by turn"""
        for root, v in st.mem.items():
            if isinstance(v, tuple) and v[:1] == ("agg",) and v[1] in ("#Iter", "core::ops::range::Range", "std::ops::Range", "core::ops::Range"):
                if v[1] == "#Iter":
                    n, i = num(self.count(v[3][0])), num(v[3][1])
                else:
                    n, i = num(v[3][1]), num(v[3][0])
                if n is not None and i is not None and n - i <= 16 and root in self.live(bi):
                    for b in body:
                        t = self.g.blocks[b]["t"]
                        f = self.g.fnval(t) if t[0] == "call" else None
                        if isinstance(f, dict) and item_of(f) == "next":
                            o = t[2][0]
                            if o[0] in ("c", "m") and any(x == root for x, _ in self.pointees(st, o[1][0], b)):
                                return True
        return False

    def enter(self, st, bi, frm):
        if bi in self.heads and self.counted(st, bi, self.heads[bi]):
            return st
        return Interp.enter(self, st, bi, frm)

    def again(self, st, bi):
        e = next(e for e in reversed(st.events) if e[0] == "enter" and e[1] == bi)
        bad = False
        for root, path, first, now in e[2]:
            v = self.at_path(st, root, path)
            for kind in self.kinds():
                k = (bi, root, path, kind)
                if k in self.dropped or ("inv", k) not in st.conds:
                    continue
                if v is None or not is_lin(v) or not self.keeps(st, kind, self.base(st, root, path), now, v):
                    self.dropped.add(k)
                    bad = True
        for root, path, _, now in e[2]:
            for rb, pb, _, nb in e[2]:
                k = (bi, root, path, ("with", rb, pb))
                if k in self.dropped or ("inv", k) not in st.conds:
                    continue
                v, w = self.at_path(st, root, path), self.at_path(st, rb, pb)
                if not (v is not None and w is not None and is_lin(v) and is_lin(w)):
                    z = None
                else:
                    z = add(add(v, w, -1), add(now, nb, -1), -1)
                if z is None or z != K(0) and not (self.holds(st, z) is True and self.holds(st, mul(z, -1)) is True):
                    self.dropped.add(k)
                    bad = True
        if bad:
            self.more = True
            return True
        for root, v in st.mem.items():
            if isinstance(v, tuple) and v and v[0] == "stk":
                self.moves.append((v, st))
        for c in self.cells:
            self.within(st, c, bi, None)
        return Interp.again(self, st, bi)

    def pairs(self, st, head, info):
        """what changes in step with something else is put in its terms"""
        out = []
        for ra, pa, fa, na in info:
            for rb, pb, fb, nb in out:
                d = num(add(fa, fb, -1))
                k = (head, ra, pa, ("with", rb, pb))
                if k in self.dropped or d is None or len(nb[2]) != 1 or len(na[2]) != 1:
                    continue
                st.conds[("inv", k)] = True
                na = add(nb, K(d))
                st.mem[ra] = self.set_path(st.mem[ra], pa, na)
                break
            out.append((ra, pa, fa, na))
        e = st.events[-1]
        st.events = st.events[:-1] + (e[:2] + (tuple(out),),)
        return out

    def set_path(self, v, path, new):
        if not path:
            return new
        return v[:3] + (tuple(self.set_path(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v[3])),)

    def base(self, st, root, path):
        """where the bytes that a counter counts begin in the input, and how many there are"""
        v = st.mem.get(root)
        if path == (1,) and isinstance(v, tuple) and v[:2] == ("agg", "#Iter"):
            n = self.count(v[3][0])
            return (v[3][0][2] if v[3][0][:1] == ("sl",) else K(0)), n if is_lin(n) else None
        return K(0), None

    def kinds(self):
        return ["up", "down", "ascii", "within"] + [("le", a) for a in self.lens]

    def keeps(self, st, kind, base, now, v):
        if kind == "up":
            return self.holds(st, add(v, now, -1)) is True
        if kind == "down":
            return self.holds(st, add(now, v, -1)) is True
        if kind == "ascii":
            return self.ascii(st, add(base[0], now), add(base[0], v))
        if kind == "within":
            return base[1] is not None and self.holds(st, add(base[1], v, -1)) is True
        return self.holds(st, add(atom(kind[1]), v, -1)) is True

    def invariants(self, st, head, info):
        for v in self.newsl:
            st.facts = st.facts + (v[2], add(v[3], v[2], -1), add(self.srclen(v[1]), v[3], -1))
        self.newsl = []
        info = self.pairs(st, head, info)
        for root, path, first, now in info:
            for kind in self.kinds():
                k = (head, root, path, kind)
                if k in self.dropped:
                    continue
                if isinstance(kind, tuple) and self.holds(st, add(atom(kind[1]), first, -1)) is not True:
                    self.dropped.add(k)
                    continue
                if kind == "within":
                    n = self.base(st, root, path)[1]
                    if n is None or self.holds(st, add(n, first, -1)) is not True:
                        self.dropped.add(k)
                        continue
                    st.facts = st.facts + (add(n, now, -1),)
                st.conds[("inv", k)] = True
                if kind == "up":
                    st.facts = st.facts + (add(now, first, -1),)
                elif kind == "down":
                    st.facts = st.facts + (add(first, now, -1),)
                elif kind == "ascii":
                    o = self.base(st, root, path)[0]
                    st.conds[("ascii", k)] = (add(o, first), add(o, now))
                elif kind != "within":
                    st.facts = st.facts + (add(atom(kind[1]), now, -1),)

    def ascii(self, st, a, b):
        """are the input's bytes from a to b known to be ASCII"""
        for n in range(24):
            if a == b or self.holds(st, add(a, b, -1)) is True and self.holds(st, add(b, a, -1)) is True:
                return True
            for k, v in st.conds.items():
                if isinstance(k, tuple) and k[0] == "ascii" and v[0] == a and v[0] != v[1]:
                    a = v[1]
                    break
            else:
                ok = False
                for src in self.srcs():
                    x = self.inbyte(src, a)
                    if self.holds(st, add(K(127), x, -1)) is True:
                        ok = True
                if not ok:
                    return False
                a = add(a, K(1))
        return False

    def srcs(self):
        return [a[2][1] for a in self.lens if isinstance(a[2], tuple) and a[2][0] == "len"]

    def holds(self, st, v):
        lo, hi = self.rng(v)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if self.follows(st, v, 3):
            return True
        if self.follows(st, add(mul(v, -1), K(-1)), 1):
            return False
        return None

    def follows(self, st, v, depth):
        """v >= 0, by adding up multiples of what is known"""
        lo = self.rng(v)[0]
        if lo is not None and lo >= 0:
            return True
        if not depth:
            return False
        at = dict(v[2])
        for f in st.facts:
            for x, k in f[2]:
                r = at.get(x, 0)
                if r * k > 0 and r % k == 0:
                    if self.follows(st, add(v, mul(f, r // k), -1), depth - 1):
                        return True
        return False

    def forget(self, st, head, body):
        before = dict(st.mem)
        Interp.forget(self, st, head, body)
        for root, v in before.items():
            w = st.mem.get(root)
            if isinstance(v, tuple) and v and v[0] == "stk" and w is not v and w != v:
                st.mem[root] = ("stk", (head, root), 0, ())
                self.inits.append((v, st))

    def unknown(self, old, t):
        if isinstance(old, bool):
            return ("sym", ("loop", self.new()))
        if isinstance(old, tuple) and old:
            if old[0] == "agg" and isinstance(old[1], str) and old[1] in self.enums:
                return ("sym", ("loop", self.new()))
            if old[0] == "sl":
                v = ("sl", old[1], atom(("s", "usize", ("loop", self.new()))), atom(("s", "usize", ("loop", self.new()))))
                self.newsl.append(v)
                return v
            if old[0] == "stk":
                return ("stk", ("?", self.new()), 0, ())
        return Js.unknown(self, old, t)

    # ------------------------------------------------------------ values
    def srclen(self, src):
        a = ("s", "usize", ("len", src))
        if a not in self.ranges:
            self.ranges[a] = (0, BIG)
        if a not in self.lens and not self.freshes(src):
            self.lens.append(a)
        return atom(a)

    def whole(self, src):
        return ("sl", src, K(0), self.srclen(src))

    def proj(self, st, v, x):
        if x[0] == "f" and v[:1] == ("ref",) and isinstance(v[1], tuple) and v[1][:1] == ("box",):
            return v
        return Js.proj(self, st, v, x)

    def put(self, st, root, path, v):
        if isinstance(root, tuple) and root[:1] == ("box",):
            st.mem[root] = v
            return
        Js.put(self, st, root, path, v)

    def rvalue(self, st, rv, bi, dt):
        if rv[0] == "cast" and rv[1] == "BoxDerefTransmute":
            return self.op(st, rv[2], bi)
        return Js.rvalue(self, st, rv, bi, dt)

    def arng(self, a):
        if a[0] == "s" and a[1] == "usize" and a not in self.ranges and isinstance(a[2], tuple) and a[2][0] == "f" and "arg" in str(a[2]) and "ret" not in str(a[2]):
            return (0, BIG)     # what an argument holds of this type is the size of something or a place in it
        return Js.arng(self, a)

    def opaque(self, key, t):
        u = re.sub(r"'\w+ ", "", t or "")
        if u in ("&[u8]", "&str"):
            return self.whole(key)
        return Js.opaque(self, key, t)

    def initial(self, root):
        if isinstance(root, tuple) and root[0] == "cell":
            return self.param(("in", root[1]), root[2])
        if isinstance(root, int) and root in self.g.argl:
            t = re.sub(r"'\w+ ", "", self.lname(root))
            if t.startswith("&mut "):
                return ("ref", ("cell", root, t[5:]), ())
            return self.opaque(("arg", root), t)
        return Interp.initial(self, root)

    def param(self, key, t):
        v = self.opaque(key, t)
        if t == "usize" and is_lin(v):
            self.ranges[v[2][0][0]] = (0, BIG)
        return v

    def length(self, st, v):
        n = 0
        while isinstance(v, tuple) and v and v[0] in ("ref", "refv") and n < 6:
            v = self.read(st, v[1], v[2]) if v[0] == "ref" else v[1]
            n += 1
        if v[0] == "sl":
            return add(v[3], v[2], -1)
        n = Js.length(self, st, v)
        for a, _ in n[2]:
            self.ranges.setdefault(a, (0, BIG))
        return n

    def count(self, src):
        if src[0] == "sl":
            return add(src[3], src[2], -1)
        return Js.count(self, src)

    def elem(self, src, i):
        if src[0] == "sl":
            return ("refv", self.inbyte(src[1], add(src[2], i)))
        return Js.elem(self, src, i)

    # ------------------------------------------------------------ the position, at the edges of a function
    def start(self):
        st = Js.start(self)
        g = self.g
        srcs = [self.lname(l) for l in g.argl]
        for l in g.argl:
            self.initial(l)
        for l in g.argl:
            t = re.sub(r"'\w+ ", "", self.lname(l))
            if t == "&mut usize":
                st.mem[("cell", l, "usize")] = self.param(("in", l), "usize")
                self.cells.append(("cell", l, "usize"))
                for a in self.lens:
                    st.facts = st.facts + (add(atom(a), st.mem[("cell", l, "usize")], -1),)
        return st

    def within(self, st, c, bi, what):
        if not self.lens:
            return
        v = st.mem.get(c)
        if v is None:
            return
        if not is_lin(v) or not any(self.holds(st, add(atom(a), v, -1)) is True for a in self.lens):
            if what is not None:
                self.outs.append(("panic", what, st, bi))

    def known(self, st, f):
        return True

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        d = vt.fdef(f)
        if d in self.contract:
            a = st.copy()
            for x in args:
                w = x
                n = 0
                while isinstance(w, tuple) and w and w[0] == "ref" and n < 6:
                    v = self.read(a, w[1], list(w[2]))
                    if isinstance(v, tuple) and v and v[0] == "ref":
                        w = v
                        n += 1
                        continue
                    break
                if isinstance(w, tuple) and w and w[0] == "ref":
                    v = self.read(a, w[1], list(w[2]))
                    if is_lin(v):
                        if not any(self.holds(a, add(atom(y), v, -1)) is True for y in self.lens):
                            self.outs.append(("panic", "%s begins past the end of the input" % d.split("::")[-1], a, bi))
                        new = atom(("s", "usize", ("after", self.new())))
                        a.facts = a.facts + tuple(add(atom(y), new, -1) for y in self.lens) + (add(new, v, -1),)
                        self.put(a, w[1], list(w[2]), new)
            return [(a, self.opaque(("ret", self.new()), dt))]
        if "log::" in nm or "log::" in d or any(isinstance(x, tuple) and x[:2] == ("agg", "log::Level") for x in D):
            if it in ("le", "lt", "ge", "gt", "enabled"):
                return [(st, True)]
            return [(st, self.opaque(("log", self.new()), dt))]
        if it in ("eq", "ne") and len(D) == 2 and isinstance(D[0], tuple) and isinstance(D[1], tuple):
            x, y = (D[0], D[1]) if D[1][:1] == ("agg",) else (D[1], D[0])
            if y[:1] == ("agg",):
                e = self.same(st, x, y)
                if e is not None:
                    return [(s, z == (it == "eq")) for s, z in e]
        if it == "new_uninit" and "Box" in nm:
            k = ("box", self.new())
            a = st.copy()
            a.mem[k] = ("sym", ("unset", k))
            return [(a, ("ref", k, ()))]
        if it == "box_assume_init_into_vec_unsafe" and args[0][:1] == ("ref",) and args[0][1][:1] == ("box",):
            D = [st.mem.get(args[0][1])]
        if it in ("take_while", "filter", "skip_while", "map_while", "take", "skip", "step_by") and D and isinstance(D[0], tuple) and D[0][:2] == ("agg", "#Iter"):
            x = ("sym", ("some of", self.new()))
            self.most[x[1]] = self.count(D[0][3][0])
            return [(st, x)]
        if it == "count" and D and isinstance(D[0], tuple) and D[0][:1] == ("sym",) and D[0][1] in self.most:
            x = atom(("s", "usize", ("count", self.new())))
            a = st.copy()
            a.facts = a.facts + (add(self.most[D[0][1]], x, -1),)
            return [(a, x)]
        if it in CLASSES and len(D) == 1 and is_lin(D[0]):
            return self.inclass(st, D[0], CLASSES[it])
        # a stack of anything but bytes
        v = "Vec<" in dt and dt.split("Vec<", 1)[1]
        if it in ("new", "with_capacity") and "Vec" in nm and v and not v.startswith("u8"):
            return [(st, ("stk", "empty", 0, ()))]
        if it in ("into_vec", "box_assume_init_into_vec_unsafe", "to_vec", "from") and v and not v.startswith("u8") and isinstance(D[0], tuple) and D[0][:2] == ("agg", "array"):
            return [(st, ("stk", "empty", 0, D[0][3]))]
        if D and isinstance(D[0], tuple) and D[0] and D[0][0] == "stk" and args[0][0] == "ref":
            w = args[0]
            while True:
                x = self.read(st, w[1], list(w[2]))
                if isinstance(x, tuple) and x and x[0] == "ref":
                    w = x
                else:
                    break
            _, base, n, pushed = D[0]
            a = st.copy()
            if it == "push":
                self.put(a, w[1], list(w[2]), ("stk", base, n, pushed + (D[1] if not (isinstance(args[1], tuple) and args[1][0] == "ref") else args[1],)))
                return [(a, self.UNIT)]
            if it in ("extend", "extend_from_slice") and isinstance(D[1], tuple) and D[1][:2] == ("agg", "array"):
                self.put(a, w[1], list(w[2]), ("stk", base, n, pushed + D[1][3]))
                return [(a, self.UNIT)]
            if it in ("pop", "last"):
                if pushed:
                    if it == "pop":
                        self.put(a, w[1], list(w[2]), ("stk", base, n, pushed[:-1]))
                    return [(a, self.some(pushed[-1] if it == "pop" else ("refv", pushed[-1])))]
                if base == "empty":
                    return [(a, self.NONE)]
                out = []
                top = ("sym", ("top", base, n))
                k = ("bottom", base, n)
                if st.conds.get(k) is not True:
                    b = a.copy()
                    b.conds[k] = False
                    if it == "pop":
                        self.put(b, w[1], list(w[2]), ("stk", base, n + 1, ()))
                    out.append((b, self.some(top if it == "pop" else ("refv", top))))
                if st.conds.get(k) is not False:
                    b = a.copy()
                    b.conds[k] = True
                    out.append((b, self.NONE))
                return out
            if it in ("is_empty",):
                if pushed:
                    return [(st, False)]
                if base == "empty":
                    return [(st, True)]
                out = []
                for x in (True, False):
                    if st.conds.get(("bottom", base, n), x) == x:
                        b = st.copy()
                        b.conds[("bottom", base, n)] = x
                        out.append((b, x))
                return out
            if it in ("len", "capacity", "as_slice", "deref", "iter"):
                return None
            if args[0][0] == "ref" and t[2][0][0] in ("c", "m") and self.lname(t[2][0][1][0], bi).startswith("&mut"):
                self.put(a, w[1], list(w[2]), ("stk", ("?", self.new()), 0, ()))
                return [(a, self.opaque(("call", it, self.new()), dt))]
        # text
        if it in ("from_utf8",) and D and isinstance(D[0], tuple) and D[0][0] == "sl":
            if self.ascii(st, D[0][2], D[0][3]):
                return [(st, self.okv(D[0]))]
            b = st.copy()
            return [(st, self.okv(D[0])), (b, self.errv(("sym", ("utf8", self.new()))))]
        if it.startswith("from_utf8_unchecked"):
            v = D[0] if D and isinstance(D[0], tuple) else ("?",)
            if not (v[0] in ("str", "bytes") or v[0] == "sl" and self.ascii(st, v[2], v[3])):
                self.outs.append(("panic", "bytes taken for text unchecked", st, bi))
            return [(st, v)]
        if it == "from_utf8":
            return [(st, self.okv(("sym", ("text", self.new())))), (st.copy(), self.errv(("sym", ("utf8", self.new()))))]
        if it == "is_char_boundary" and len(D) == 2 and is_lin(D[1]):
            n = self.length(st, args[0])
            out = []
            for s, z in self.cond(st, self.binop(st, "Eq", D[1], K(0), None)):
                if z:
                    out.append((s, True))
                    continue
                for s2, e in self.cond(s, self.binop(s, "Eq", D[1], n, None)):
                    if e:
                        out.append((s2, True))
                        continue
                    for s3, le in self.cond(s2, self.binop(s2, "Lt", D[1], n, None)):
                        out.append((s3, False))
                        if le:
                            out.append((s3.copy(), True))
            return out
        if it in ("min", "max") and len(D) == 2 and all(is_lin(x) for x in D):
            return [(s, D[0] if x == (it == "min") else D[1]) for s, x in self.cond(st, self.binop(st, "Le", D[0], D[1], None))]
        if it in ("saturating_sub",) and all(is_lin(x) for x in D):
            return [(s, add(D[0], D[1], -1) if x else K(0)) for s, x in self.cond(st, self.binop(st, "Ge", D[0], D[1], None))]
        if it in ("iter", "into_iter", "bytes") and len(args) == 1 and isinstance(D[0], tuple) and D[0] and D[0][0] == "sl" and "chars" not in nm:
            return [(st, self.piter(D[0]))]
        if it == "to_digit" and len(D) == 2 and num(D[1]) is not None:
            x = ("s", "u32", ("digit", self.new()))
            self.ranges[x] = (0, num(D[1]) - 1)
            return [(st, self.some(atom(x))), (st.copy(), self.NONE)]
        if it in ("starts_with", "ends_with") and isinstance(D[0], tuple) and D[0][0] == "sl":
            n = self.length(st, D[1]) if isinstance(D[1], tuple) and D[1] and D[1][0] in ("bytes", "str", "sl", "agg") else None
            if n is not None and is_lin(n):
                # whatever begins with it is at least as long
                b = st.copy()
                a = st.copy()
                a.facts = a.facts + (add(self.length(st, D[0]), n, -1),)
                if it == "starts_with" and isinstance(D[1], tuple):
                    bs = self.bytes_of(st, D[1] if D[1][0] != "str" else ("bytes", D[1][1].encode()), None)
                    for i, x in enumerate(bs or ()):
                        y = add(self.inbyte(D[0][1], add(D[0][2], K(i))), x, -1)
                        a.facts = a.facts + (y, mul(y, -1))
                return [(a, True), (b, False)]
        if it in ("materialize",) and len(args) == 1:
            return [(st, self.okv(("sym", ("made", self.new()))))] if self.fitting(st, bi, f, D[0]) else None
        if it == "alloc" and "Wip" in nm:
            return [(st, ("sym", ("wip", targ(self, bi, f))))]
        if it in ("index", "index_mut") and len(args) == 2 and (not isinstance(D[0], tuple) or not D[0] or D[0][0] != "sl"):
            # a place in something else: what is asked for has to be there
            y = self.argtype(bi, t, 0) or ""
            if is_lin(D[1]) and ("Vec" in y or "[" in y):
                if self.holds(st, add(add(self.length(st, args[0]), D[1], -1), K(-1))) is not True:
                    self.outs.append(("panic", "an item is asked for that may not be there", st, bi))
            elif not (isinstance(D[1], tuple) and D[1][:1] == ("agg",) and str(D[1][1]).endswith("RangeFull")):
                self.outs.append(("panic", "something is asked for by index that may not be there", st, bi))
        if it in ("abs", "pow", "neg") and len(args) < 3 and self.argtype(bi, t, 0) in INTS:
            self.outs.append(("panic", "overflow in %s" % it, st, bi))
        return Js.call(self, st, bi, f, args, t, dt)

    def _calls(self, st, bi, f, args, t, dt):
        out = []
        for s, v in Js._calls(self, st, bi, f, args, t, dt):
            x = v
            if is_lin(x) and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1 and x[2][0][0][0] == "s":
                x = ("sym", x[2][0][0][2])
            if isinstance(x, tuple) and x and x[0] in ("sym", "sl") and isinstance(x[1], tuple) and x[1] and x[1][0] == "call":
                v = self.opaque(("ret", self.new()), dt)
            out.append((s, v))
        return out

    def same(self, st, x, y):
        """[(state, whether x is y)] for values that are equal when their contents are"""
        if is_lin(x) and is_lin(y):
            return self.cond(st, self.binop(st, "Eq", x, y, None))
        if y[:1] != ("agg",) or not (y[1] in self.structural or str(y[1]).endswith("::Option")) or x[:1] not in (("agg",), ("sym",)):
            return None
        if x[0] == "agg":
            todo, out = ([(st, 0)], []) if x[2] == y[2] else ([], [(st, False)])
        else:
            todo, out = [], []
            for s, z in self.isvariant(st, ("discr", x[1]), y[2]) if y[1] in self.enums else [(st, True)]:
                if z:
                    todo.append((s, 0))
                else:
                    out.append((s, False))
        while todo:
            s, i = todo.pop()
            if i == len(y[3]):
                out.append((s, True))
                continue
            e = self.same(s, x[3][i] if x[0] == "agg" else ("sym", ("f", ("as", x[1], "?"), i, str(i))), y[3][i])
            if e is None:
                return None
            for s2, z in e:
                if z:
                    todo.append((s2, i + 1))
                else:
                    out.append((s2, False))
        return out

    def inclass(self, st, v, ranges):
        out, todo = [], [st]
        for lo, hi in ranges:
            nxt = []
            for s in todo:
                for s1, a in self.cond(s, self.binop(s, "Ge", v, K(lo), None)):
                    if not a:
                        nxt.append(s1)
                        continue
                    for s2, b in self.cond(s1, self.binop(s1, "Le", v, K(hi), None)):
                        if b:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
            todo = nxt
        return out + [(s, False) for s in todo]

    def isvariant(self, st, key, n):
        c = st.conds.get(key)
        if c is None or isinstance(c, tuple) and n not in c[1]:
            o = st.copy()
            o.conds[key] = ("not", (c[1] if c else ()) + (n,))
            return [(self.chose(st, key, n), True), (o, False)]
        return [(st, not isinstance(c, tuple) and int(c) == n)]

    def fitting(self, st, bi, f, v):
        """the value comes from a Wip made for the type it's turned into"""
        return self.allocated == {targ(self, bi, f)}


# ------------------------------------------------------------------------------------------------ stacks

def look(val, path):
    """follow ("discr"|"f"|"as") names from a concrete value"""
    for x in path:
        if val is None or val[0] != "agg":
            return None
        if x[0] == "as":
            continue
        if x[0] == "f":
            if x[1] >= len(val[3]):
                return None
            val = val[3][x[1]]
    return val


def trail(n):
    """(index of the popped value, steps from it) of a name"""
    steps = []
    while isinstance(n, tuple) and n:
        if n[0] == "top":
            return n, steps[::-1]
        if n[0] in ("sym", "refv", "*", "ref"):
            n = n[1]
        elif n[0] == "f":
            steps.append(("f", n[2]))
            n = n[1]
        elif n[0] == "as":
            steps.append(("as", n[2]))
            n = n[1]
        else:
            return None
    return None


WILD = ("wild",)
BOTTOM = ("bottom",)


class Stacks:
    """what can lie under what on the stacks of the program"""

    def __init__(self, inits, moves):
        self.below, self.tops = {}, set()
        todo = [x for x in inits + moves]
        while True:
            size = len(self.tops) + sum(map(len, self.below.values()))
            for v, st in todo:
                self.move(v, st)
            if size == len(self.tops) + sum(map(len, self.below.values())):
                return

    def chains(self, st, n, base):
        """concrete values for the first n popped, and what is left on top"""
        out = []

        def go(k, chain, cands):
            if k == n:
                out.append((chain, cands))
                return
            for x in cands:
                if x == BOTTOM or not self.fits(st, base, k, x):
                    continue
                go(k + 1, chain + [x], self.below.get(x, set()))
        go(0, [], set(self.tops))
        return out

    def fits(self, st, base, k, x):
        if x == WILD:
            return True
        for c, v in st.conds.items():
            if not (isinstance(c, tuple) and c):
                continue
            if c[:3] == ("bottom", base, k):
                if v != (x == BOTTOM):
                    return False
                continue
            if c[0] != "discr":
                continue
            t = trail(c[1])
            if t is None or t[0][1] != base or t[0][2] != k:
                continue
            if x == BOTTOM:
                return False
            y = look(x, t[1])
            if y is None or y[0] != "agg":
                continue
            if isinstance(v, tuple):
                if y[2] in v[1]:
                    return False
            elif int(v) != y[2]:
                return False
        return True

    def conc(self, v, chain, base):
        if isinstance(v, tuple) and v and v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.conc(x, chain, base) for x in v[3]))
        t = trail(v)
        if t is not None and t[0][1] == base and t[0][2] < len(chain):
            x = chain[t[0][2]]
            y = look(x, t[1]) if x != WILD else None
            return y if y is not None else WILD
        return WILD if not is_lin(v) else v

    def move(self, v, st):
        _, base, n, pushed = v
        if base == "empty":
            ch = [([], {BOTTOM})]
        elif isinstance(base, tuple) and base[0] == "?":
            ch = [([], set(self.tops) | {WILD, BOTTOM})]
        else:
            ch = self.chains(st, n, base)
        for chain, under in ch:
            under = {x for x in under if base == "empty" or self.fits(st, base, n, x)}
            if not under:
                continue
            for x in pushed:
                x = self.conc(x, chain, base)
                self.below.setdefault(x, set()).update(under)
                under = {x}
            self.tops |= under

    def possible(self, st):
        """can what was popped on this path have been popped"""
        n = {}
        for c in st.conds:
            if isinstance(c, tuple) and c:
                if c[0] == "bottom":
                    n[c[1]] = max(n.get(c[1], 0), c[2] + 1)
                elif c[0] == "discr":
                    t = trail(c[1])
                    if t:
                        n[t[0][1]] = max(n.get(t[0][1], 0), t[0][2] + 1)
        for base, k in n.items():
            if isinstance(base, tuple) and base[0] == "?":
                continue

            def go(i, cands):
                if i == k:
                    return True
                for x in cands:
                    if self.fits(st, base, i, x) and (x == BOTTOM and (i == k - 1) or x != BOTTOM and go(i + 1, self.below.get(x, set()) if x != WILD else set(self.tops) | {BOTTOM, WILD})):
                        return True
                return False
            if not go(0, set(self.tops)):
                return False
        return True


# ------------------------------------------------------------------------------------------------ the checks

def callgraph(p, module, cr=CR):
    fs = {f.id: f for f in p.fns.values() if f.crate.name == cr and f.body and module in f.id}
    calls = {}
    for i, f in fs.items():
        calls[i] = set()
        for b in f.body["blocks"]:
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("fn"), dict):
                fn = t[1][1]["fn"]
                d = p.resolve(fn, f.crate)
                calls[i].add(d.id if d is not None else vt.fdef(fn))
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    calls[i].add(s[2][1][1])
    return fs, calls


def reaches(calls, a, goal):
    seen, todo = set(), [a]
    while todo:
        for c in calls.get(todo.pop(), ()):
            if c == goal:
                return True
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return False


def nearest(g, bi):
    """the place in the analysed tree that a block is, or is called from"""
    pred = {}
    for b in g.reachable():
        for x in g.succs(b):
            if x is not None:
                pred.setdefault(x, []).append(b)
    todo, seen = [bi], {bi}
    for b in todo:
        if g.where(b).startswith(facts.REPO):
            return g.where(b)
        for x in pred.get(b, ()):
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return g.where(bi)


def c26(fx, r):
    """no input makes the JSON reader panic"""
    r.rule("every path of every function of the reader, loops from any state that their invariants allow (found by dropping the ones that don't hold): no index or slice is out of bounds, "
           "no arithmetic overflows, nothing that can be an error is unwrapped, no assertion fails that the stack's contents don't exclude; functions that call themselves are entered and left within the input")
    nopanic(fx, r, program(fx), CR, MODULE, policy, Read)
    r.floor("functions", 2)


def nopanic(fx, r, p, cr, module, policy, machine):
    fs, calls = callgraph(p, module, cr)
    rec = {i for i in fs if reaches(calls, i, i) and "{closure" not in i}
    called = {c for i in fs for c in calls[i] if c != i}
    roots = [f for i, f in sorted(fs.items()) if "{closure" not in i and (i in rec or i not in called)]
    if not r.check(any("from_s" in f.id for f in fs.values()), "reader:exists", "the reader's functions are no longer there to decide"):
        return
    done = set()
    left = [f for i, f in sorted(fs.items()) if "{closure" not in i and "{const" not in i]
    while roots or any(f.id not in done for f in left):
        # what isn't looked at as a part of another function is looked at on its own
        f = roots.pop(0) if roots else next(f for f in left if f.id not in done)
        done.add(f.id)
        g = flow.Graph(p, f, lambda c, x: policy(c, x) and c.id not in rec, cap=40000)
        done |= {x if isinstance(x, str) else x.id for x in g.inlined}
        it = machine(g, fx, rec)
        it.allocated = set()
        for bi in g.reachable():
            t = g.blocks[bi]["t"]
            fv = g.fnval(t) if t[0] == "call" else None
            if isinstance(fv, dict) and item_of(fv) == "alloc" and "Wip" in fname(fv):
                it.allocated.add(targ(it, bi, fv))
        try:
            outs = it.run()
        except Undecided as e:
            r.notes.append("undecided: %s: %s" % (f.id, e))
            continue
        r.count("functions")
        r.count("functions inlined", len(g.inlined))
        stacks = Stacks(it.inits, it.moves)
        for k, v, st, bi in outs:
            r.count("paths")
            if k == "panic":
                if not stacks.possible(st):
                    r.ok()
                    continue
                what = v if isinstance(v, str) else " ".join(str(x) for x in v if isinstance(x, str))
                w = nearest(g, bi)
                r.bad("panic:%s" % os.path.relpath(w.split(":")[0], facts.REPO), "%s can panic: %s" % (f.id.replace(cr + "::", ""), what[:100]), w)
            else:
                if k == "ret" and f.id in rec:
                    ok = all(is_lin(st.mem.get(c, K(0))) and any(it.holds(st, add(atom(a), st.mem[c], -1)) is True for a in it.lens) for c in it.cells)
                    r.check(ok, "past:" + f.id, "%s can leave the position past the end of the input" % f.id.replace(cr + "::", ""), g.where(bi))
                else:
                    r.ok()
        n = len([1 for bi in g.reachable() if g.blocks[bi]["t"][0] == "assert"])
        r.count("assertions", n)
