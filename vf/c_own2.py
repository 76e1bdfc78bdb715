"""Who owns what the builder writes and allocates (C19): every value is dropped, or handed on, once, and every allocation is freed once."""
from . import poly, vt
from .flow import walk
from .vt import fname
from .poly import bare, fld, item_of
from .c_peek import aggs, calls, label, live
from .c_wip import program, flat, const, frames_of, slot, W, WIP, FRAME, ISTATE, FLAGS, HEAP, GUARD, ISET, VID, TABLES
from .c_build import Ev, View, both, on_stack, ok, cleared, no_variant, fkind, own_fields, reach_from


def c19(fx, r):
    p = program(fx)
    r.rule("typestate of every frame, heap value and allocation through every operation: a frame taken off the stack is kept track of, released or moved, once; what is handed to a container is never dropped or tracked again; "
           "an allocation is freed once, by its own address and layout, by who owns it; releasing drops everything that is initialized, once")
    for rt in p.roots():
        ev = Ev(rt)
        for fi, fam in enumerate(rt.fams):
            o = Own(rt, ev, fi, fam)
            o.deallocs(r)
            o.releases(r)
            if not poly.trait_of(rt.fn) and rt.fn.id in p.cleaners:
                o.cleaner(r)
                continue
            o.taken(r)
            o.handed(r)
        fresh(rt, r)
    drops(p, r)
    evictor(p, r)
    root(p, r)
    heap(p, r)
    puts(p, r)
    r.floor("deallocations", 2)
    r.floor("frames taken off the stack", 4)
    r.floor("values handed to containers", 3)
    r.floor("functions that release frames", 1)


def some_edge(g, b):
    """the block entered when the call in block b answered Some"""
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        if t[0] != "switch":
            continue
        e = bare(g.expr(t[1]))
        if e[0] == "discr":
            x = bare(e[1])
            if x[0] == "call" and x[3] == b:
                for v, to in t[2]:
                    if str(v) == "1":
                        return to
                return t[3]
    return None


class Own:
    def __init__(self, rt, ev, fi, fam):
        self.rt, self.ev, self.fi, self.fam, self.g = rt, ev, fi, fam, fam.g
        self.V = View(ev)
        self.E = ev.events(fi)
        self.D = rt.prog.defs

    # -- assumptions
    def flag(self, K, name, v):
        """K's bookkeeping has (or hasn't) the flag"""
        def assume(kind, a):
            if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("contains", "intersects") and len(a[1]) == 2 and fkind(a[1][1]) == name:
                o = fld(a[1][0], "flags")
                if o is not None and self.ev.owner(self.fam, o) == K:
                    return int(v)
            return None
        return assume

    def sized(self, v):
        """every value has a size (or has none)"""
        def is_size(e):
            x = bare(e)
            return x[0] == "call" and item_of(x[1]) == "size"

        def zero(e):
            c = const(e)
            return c is not None and str(c.get("bits")) == "0"

        def assume(kind, a):
            if kind == "eq":
                if is_size(a[0]) and zero(a[1]) or is_size(a[1]) and zero(a[0]):
                    return not v
            if kind == "lt" and zero(a[0]) and is_size(a[1]):
                return bool(v)
            if kind == "le" and is_size(a[0]) and zero(a[1]):
                return not v
            return None
        return assume

    def base(self, kind, a):
        return self.V.base(self.fam, kind, a)

    def has_drop(self, kind, a):
        if kind == "discr":
            x = bare(a[0])
            if x[0] == "." and x[3] == "drop_in_place":
                return 1
        return None

    # -- loops over the fields of K
    def loops(self, K):
        out = {}
        for bi in self.g.reachable():
            t = self.g.blocks[bi]["t"]
            if t[0] == "call" and item_of(self.g.fnval(t)) in ("next", "next_back") and t[2]:
                s = poly.iter_src(self.fam.res(self.g.expr(t[2][0])))
                if s is None:
                    continue
                sl = [x for x in flat(s[0]) if const(x) is None]
                if sl and own_fields(self.rt, K, s[0]):
                    kinds = set()
                    for x in sl:
                        d = fld(x, "fields")
                        if d is not None:
                            kinds.add("Struct" if d[0] == "." and d[4] == "Struct" else "Enum" if fld(d, "data") is not None else None)
                    out[bi] = kinds
        return out

    def removes(self, K, lp):
        """blocks that take what is known about the field of K that the loop is at out of the istates"""
        out = set()
        for b, xs in self.E.items():
            for x in xs:
                if x[0] == "Sremove":
                    k = self.id_of(x[1][1])
                    if k is not None and k[0] == "field" and k[1] == K and {i[1] for i in k[2]} == {("it", lp)}:
                        out.add(b)
        return out

    def id_of(self, e):
        """the value a ValueId is about"""
        ks = set()
        for y in flat(e):
            y = bare(y)
            if y[0] == "agg" and y[1][0] == "adt" and y[1][1] == VID:
                ks |= self.rt.place(self.fam, y[2][list(y[1][3]).index("ptr")])
            else:
                ks.add(("own", self.rt.fkey(self.fam, y)))
        return next(iter(ks)) if len(ks) == 1 else None

    def recursion(self):
        """blocks that call back into the function (or one it is inlined in) for a part"""
        return {b for b, t in self.g.skipped if t.crate is self.rt.prog.c and t.id.startswith(W)}

    def evicts(self, K, r=None, at=None):
        """loops that forget everything that is known about the fields of K, and about theirs"""
        out = set()
        why = "does not forget what it knows about the fields of what it gives away"
        rec = self.recursion() | {b for b, xs in self.E.items() for x in xs if x[0] == "R"}
        for lp, kinds in self.loops(K).items():
            rm = self.removes(K, lp)
            if not rm:
                continue
            if not kinds >= {"Struct", "Enum"}:
                why = "forgets only part of what it knows about the fields of what it gives away"
                continue
            evs = {lp: ["next"]}
            for b in rm:
                evs[b] = ["rm"]
            for b in rec:
                evs.setdefault(b, []).append("rec")
            bad = []

            def step(st, x, bi):
                if x == "next":
                    if st in ("next", "rm"):
                        bad.append(bi)
                    return "next"
                if x == "rm":
                    return "rm" if st == "next" else st
                return "" if st == "rm" else st

            def assume(kind, a):
                if kind == "discr":
                    x = bare(a[0])
                    if x[0] == "call" and (x[3] == lp or x[3] in rm):
                        return 1
                return self.base(kind, a)
            start = [s for s in self.g.succs(lp) if s is not None][0]
            outs = self.rt.outcomes(self.fam, assume, start=start, auto=("next", evs, step))
            if bad or any(st in ("next", "rm") for st, v in outs):
                continue
            out.add(lp)
        return out, why

    # -- rules
    def deallocs(self, r):
        rt, g = self.rt, self.g
        for b, xs in self.E.items():
            for x in xs:
                if x[0] != "D":
                    continue
                at = g.where(b)
                r.count("deallocations")
                args = x[2]
                K = x[1]
                L = bare(args[1])
                q, s = fld(args[0], "ptr"), fld(L, "layout") if fld(L, "layout") is not None else fld(args[1], "layout")
                if q is not None and self.rt.fn.crate is not None and (K is None or poly.self_ty(self.rt.fn) == GUARD or s is not None and self.rt.same(bare(q), bare(s))):
                    # a guard's own memory
                    good = q is not None and s is not None and rt.same(bare(q), bare(s))
                    r.check(good, rt.name + ":dealloc:layout", "%s frees memory with a layout that is not the one it was allocated with" % rt.name, at, "%s: freed with its own layout" % rt.name)
                else:
                    s = fld(L, "layout")
                    good = s is not None and self.shape_is(s, K)
                    r.check(good, rt.name + ":dealloc:layout", "%s frees memory with a layout that is not the one it was allocated with" % rt.name, at, "%s: freed with its own layout" % rt.name)
                    r.check(not rt.enters(self.fam, b, both(self.flag(K, "ALLOCATED", False), self.base)), rt.name + ":dealloc:unowned", "%s frees memory the frame doesn't own" % rt.name, at,
                            "%s: only memory the frame owns is freed" % rt.name)
                r.check(not rt.enters(self.fam, b, both(self.sized(False), self.base)), rt.name + ":dealloc:zero", "%s frees memory of size zero, which was never allocated" % rt.name, at)

    def shape_is(self, e, K):
        s = self.rt.shape1(self.fam, e)
        return s == K or (K[0] == "field" and s == ("field", K[2]))

    def again(self, K):
        """{block: [("O",)]}: where another frame takes the place of K"""
        out = {}
        for b, xs in self.E.items():
            for x in xs:
                if x[0] == "O" and x[1] == K:
                    e = some_edge(self.g, b) if x[2] == "pop" else None
                    out[b if e is None else e] = [("O", K)]
        return out

    def frees(self, r, K, key, start_event, what, given=()):
        """from start_event on, K's memory is freed exactly when it is K's own and has a size"""
        rt = self.rt
        evs = self.again(K)
        for b, xs in self.E.items():
            ys = [x for x in xs if (x[0] == "D" and x[1] == K) or start_event(x)]
            if ys:
                evs[b] = evs.get(b, []) + ys
        ends = set()

        def step(st, x, bi):
            if x[0] == "O":
                if st is not None:
                    ends.add(st)
                return None
            if x[0] == "D":
                return st if st is None else min(st + 1, 2)
            return 0 if st is None else st
        for al, sz in ((1, 1), (1, 0), (0, 1)):
            asm = both(self.flag(K, "ALLOCATED", al), self.sized(sz), *given, self.base)
            ends.clear()
            outs = {st for st, v in rt.outcomes(self.fam, asm, auto=(None, evs, step)) if st is not None} | ends
            want = {1} if al and sz else {0}
            r.check(outs <= want, "%s:%s:free%d%d" % (rt.name, key, al, sz), "%s %s" % (rt.name, (
                "doesn't free, or frees twice, the memory of " if al and sz else "frees memory that isn't its own or has no size: that of ") + what), rt.at,
                "%s: memory of %s freed exactly when owned" % (rt.name, what))

    def releases(self, r):
        """what is released in place keeps its memory"""
        rt = self.rt
        Rs = [(b, x) for b, xs in self.E.items() for x in xs if x[0] == "R" and on_stack(x[1])]
        for K in {x[1] for b, x in Rs}:
            evs = {}
            for b, xs in self.E.items():
                ys = [x for x in xs if x[0] in ("=istate", "F", "R") and x[1] == K]
                if ys:
                    evs[b] = ys
            bad = []

            def step(st, x, bi):
                if x[0] == "=istate":
                    a = bare(x[2]) if x[2] is not None else ("?",)
                    if a[0] == "agg" and a[1][1] == ISTATE:
                        f = dict(zip(a[1][3], a[2]))["flags"]
                        o = fld(f, "flags")
                        if o is None or self.ev.owner(self.fam, o) != K:
                            bad.append((bi, "forgets that a frame owns its memory"))
                    return "new"
                if x[0] == "F":
                    if x[4] == "copy" and x[2] == "remove" and x[3] == "ALLOCATED" and st == "new":
                        return "kept"
                    if x[4] == "frame" or x[2] != "remove":
                        bad.append((bi, "changes which frame owns the memory"))
                    return st
                if st != "kept":
                    bad.append((bi, "frees the memory of a frame it goes on using"))
                return ""
            rt.outcomes(self.fam, self.base, auto=("", evs, step))
            for bi, what in bad:
                r.bad(rt.name + ":inplace", "%s %s" % (rt.name, what), self.g.where(bi))
            r.ok("%s: releasing in place keeps the memory" % rt.name)

    def taken(self, r):
        """a frame taken off the stack is kept track of, cleaned up or moved"""
        rt, g = self.rt, self.g
        Os = [(b, x[1]) for b, xs in self.E.items() for x in xs if x[0] == "O"]
        for b, K in Os:
            r.count("frames taken off the stack")
            at = g.where(b)
            edge = some_edge(g, b) if self.E[b][-1][2] == "pop" else None
            evs = {}
            if edge is not None:
                evs[edge] = [("O",)]
            for bb, xs in self.E.items():
                ys = []
                for x in xs:
                    if x[0] == "O" and bb == b and edge is None:
                        ys.append(("O",))
                    elif x[0] == "R" and x[1] == K:
                        ys.append(("R",))
                    elif x[0] == "H" and x[1] == K:
                        ys.append(("H",))
                    elif x[0] == "F" and x[1] == K and x[2] == "insert" and x[3] == "MOVED":
                        ys.append(("moved",))
                    elif x[0] == "Sinsert":
                        k, v = self.id_of(x[1][1]), self.ev.owner(self.fam, x[1][2])
                        if k == K:
                            ys.append(("track", v == K))
                if ys:
                    evs[bb] = evs.get(bb, []) + ys
            bad = []

            def step(st, x, bi):
                k = x[0]
                if k == "O":
                    if st in ("o", "H"):
                        bad.append((b, "lost", "loses a frame it took off the stack, with what it holds"))
                    return "o"
                if st == "":
                    return st
                if k == "R":
                    if st != "o":
                        bad.append((bi, "twice", "releases a frame that it has already given away"))
                    return "gone"
                if k == "H":
                    if st != "o":
                        bad.append((bi, "twice", "gives away a frame that it has already given away"))
                    return "H"
                if k == "moved":
                    return "gone"
                if k == "track":
                    if st == "H":
                        bad.append((bi, "tracked", "keeps track of a value that it handed to a container"))
                    if not x[1]:
                        bad.append((bi, "state", "keeps track of a frame with another one's bookkeeping"))
                    return "gone"
                return st
            for mv in (0, 1):
                asm = both(self.flag(K, "MOVED", mv), self.base)
                if mv == 0:
                    outs = rt.outcomes(self.fam, asm, auto=("", evs, step))
                    lost = {st for st, v in outs if st in ("o", "H")}
                    r.check(not lost, rt.name + ":taken:lost", "%s loses a frame it took off the stack, with what it holds" % rt.name, at, "%s: a frame taken off is tracked, released or moved" % rt.name)
                else:
                    vis = rt.reach(self.fam, asm)
                    tr = [bb for bb, ys in evs.items() if bb in vis for y in ys if y[0] == "track"]
                    r.check(not tr, rt.name + ":taken:moved", "%s keeps track of a value that was moved out of" % rt.name, at, "%s: what was moved isn't tracked" % rt.name)
            for bi, code, what in bad:
                r.bad(rt.name + ":taken:" + code, "%s %s" % (rt.name, what), g.where(bi))

    def handed(self, r):
        """what a container was given is moved out of: freed, forgotten, never dropped"""
        rt, g = self.rt, self.g
        Ks = {}
        for b, xs in self.E.items():
            for x in xs:
                if x[0] == "H" and x[1] is not None and x[1][0] == "own":
                    Ks.setdefault(x[1], []).append((b, x[2]))
        for K, hs in Ks.items():
            r.count("values handed to containers", len(hs))
            at = g.where(hs[0][0])
            self.frees(r, K, "handed", lambda x: x[0] == "H" and x[1] == K, "what it handed to a container")
            ls, why = self.evicts(K)
            evs = self.again(K)
            for b, xs in self.E.items():
                ys = [x for x in xs if x[0] in ("H", "Z", "=variant", "F", "X", "R", "=istate", "=fields") and x[1] == K]
                ys += [("Sown",) for x in xs if x[0] == "Sremove" and self.id_of(x[1][1]) == K]
                if ys:
                    evs[b] = evs.get(b, []) + ys
            for b in ls:
                evs[b] = evs.get(b, []) + [("L",)]
            bad = []

            def end(st):
                if "h" in st and "l" not in st:
                    bad.append((hs[0][0], "evict", why))
                if "h" in st and "m" not in st:
                    bad.append((hs[0][0], "moved", "doesn't record that a value was handed to a container"))
                if "h" in st and "s" not in st:
                    bad.append((hs[0][0], "own", "doesn't forget what it knows about a value it handed to a container"))

            def step(st, x, bi):
                k = x[0]
                if k == "O":
                    end(st)
                    return frozenset()
                if k == "H":
                    if "h" in st:
                        bad.append((bi, "twice", "hands a value to a container twice"))
                    return frozenset({"h"})
                if "h" not in st:
                    return st
                if k == "L":
                    return st | {"l"}
                if k in ("Z", "=variant", "=istate", "=fields") and "l" not in st:
                    bad.append((bi, "evict", why))
                if k == "F" and x[2] == "insert" and x[3] == "MOVED":
                    return st | {"m"}
                if k == "Sown":
                    return st | {"s"}
                if k in ("X", "R"):
                    bad.append((bi, "drop", "drops a value it handed to a container"))
                return st
            outs = rt.outcomes(self.fam, self.base, auto=(frozenset(), evs, step))
            for st, v in outs:
                end(st)
            for bi, code, what in bad:
                r.bad("%s:handed:%s" % (rt.name, code), "%s %s" % (rt.name, what), g.where(bi))
            r.ok("%s: what a container was given is moved out of" % rt.name)

    def cleaner(self, r):
        """releasing a frame: nothing if it was moved; the whole value if it is initialized, otherwise each initialized part; then its own memory"""
        rt, g = self.rt, self.g
        r.count("functions that release frames")
        params = [i for i in range(rt.fn.body["argc"]) if rt.prog.argty(rt.fn, i).get("def") == FRAME]
        K = ("own", rt.fkey(self.fam, ("p", params[0])))
        nm = rt.name
        at = rt.at
        moved = lambda v: self.flag(K, "MOVED", v)
        vis = rt.reach(self.fam, both(moved(1), self.base))
        did = [b for b in vis for x in self.E.get(b, ()) if x[0] in ("X", "R", "D", "Sremove")]
        r.check(not did, nm + ":moved", "%s releases what was moved out of" % nm, g.where(did[0]) if did else at, "%s: nothing for what was moved" % nm)
        # fully initialized
        ls, why = self.evicts(K)
        rec = {b for b, xs in self.E.items() for x in xs if x[0] == "R"}
        evs = {b: [x for x in xs if x[0] in ("X", "R", "D")] for b, xs in self.E.items()}
        for b in ls:
            evs[b] = evs.get(b, []) + [("L",)]

        def step(st, x, bi):
            if x[0] == "X":
                w = "x" if x[1] == K else "y"
                return st | {w if w not in st else w + w}
            if x[0] == "R":
                return st | {"r"}
            if x[0] == "L":
                return st | {"l"}
            return st | {"d"}
        for d in self.D:
            asm = both(moved(0), self.V.with_def(self.fam, K, self.D[d]), self.V.init(self.fam, K, True), self.has_drop, self.base)
            outs = {st - {"d"} for st, v in rt.outcomes(self.fam, asm, auto=(frozenset(), evs, step))}
            want = {frozenset({"x", "l"})}
            if d not in ("Struct", "Enum"):
                good = outs <= {frozenset({"x", "l"}), frozenset({"x"})}
            else:
                good = outs == want
            r.check(bool(outs) and good, nm + ":whole:" + d, "%s doesn't drop a fully initialized %s exactly once, having forgotten its fields" % (nm, d.lower()), at,
                    "%s: a fully initialized %s is dropped once" % (nm, d.lower()))
        # partly initialized
        for var in (0, 1):
            part = both(moved(0), self.partial(K, var), self.has_drop, self.base)
            vis = set()
            rt.outcomes(self.fam, part, vis)
            xs = [b for b in vis for x in self.E.get(b, ()) if x[0] == "X" and x[1] == K]
            r.check(not xs, nm + ":partial", "%s drops a whole value that is only partly initialized" % nm, g.where(xs[0]) if xs else at, "%s: a partly initialized value is not dropped whole" % nm)
        part = both(moved(0), self.partial(K, 1), self.has_drop)
        lps = {b: k for b, k in self.loops(K).items() if b in rt.reach(self.fam, both(part, self.base)) and (self.removes(K, b) or True)}
        full = [b for b, k in lps.items() if k >= {"Struct", "Enum"}]
        if not r.check(bool(full), nm + ":fields", "%s doesn't look at every field of a partly initialized value" % nm, at, "%s: every field of a partly initialized value" % nm):
            return
        for lp in full:
            rm = self.removes(K, lp)
            ks = {("it", lp)}

            def field(k):
                return k is not None and k[0] == "field" and k[1] == K and {i[1] for i in k[2]} == ks
            for known, has in ((1, 0), (1, 1), (0, 1), (0, 0)):
                def assume(kind, a, known=known, has=has):
                    if kind == "discr":
                        x = bare(a[0])
                        if x[0] == "call" and x[3] == lp:
                            return 1
                        if x[0] == "call" and x[3] in rm:
                            return known
                    if kind == "call" and self.V.iset(self.fam, a[0], a[1], K, "has") and poly.index(rt, a[1][1]) in ks:
                        return has
                    return None
                got = set()
                ev2 = {b: [x for x in ys if x[0] in ("X", "R", "D")] for b, ys in self.E.items()}
                ev2[lp] = [("next",)]

                def step2(st, x, bi):
                    if st == "end":
                        return st
                    if x[0] == "next":
                        got.add(st)
                        return "end"
                    if x[0] == "D":
                        return st + "d"
                    w = ("r" if x[0] == "R" else "x") if field(x[1]) else "?"
                    if x[0] == "R" and field(x[1]) and not self.removed(x[2], rm):
                        w = "?"
                    return (st + w)[:4]
                start = [s for s in g.succs(lp) if s is not None][0]
                outs = rt.outcomes(self.fam, both(assume, part, self.base), start=start, auto=("", ev2, step2))
                got |= {st for st, v in outs if st != "end"}
                want = {"r"} if known else {"x"} if has else {""}
                r.check(got == want, "%s:field:%d%d" % (nm, known, has), "%s %s" % (nm, "doesn't release a field it keeps track of exactly once" if known else
                        "doesn't drop an initialized field exactly once" if has else "drops a field that isn't initialized"), at,
                        "%s: a field that is %s" % (nm, "tracked is released" if known else "initialized is dropped" if has else "not initialized is left alone"))
        # memory
        first = [b for b in [g.entry]]
        evm = lambda x: False
        for al, sz in ((1, 1), (1, 0), (0, 1)):
            for init in (0, 1):
                asm = both(moved(0), self.flag(K, "ALLOCATED", al), self.sized(sz), self.V.init(self.fam, K, bool(init)), self.base)
                evd = {b: [x for x in ys if x[0] in ("D", "X", "R")] for b, ys in self.E.items()}
                late = []

                def step3(st, x, bi):
                    if x[0] == "D":
                        return min(st + (1 if x[1] == K else 2), 2)
                    if st:
                        late.append(bi)
                    return st
                outs = {st for st, v in rt.outcomes(self.fam, asm, auto=(0, evd, step3))}
                r.check(outs == ({1} if al and sz else {0}), "%s:memory:%d%d%d" % (nm, al, sz, init), "%s %s" % (nm, "doesn't free a frame's own memory exactly once" if al and sz else
                        "frees memory that isn't the frame's own or has no size"), at, "%s: memory freed exactly when owned" % nm)
                r.check(not late, nm + ":late", "%s drops a value in memory it has freed" % nm, g.where(late[0]) if late else at)

    def removed(self, F, rm):
        """is the frame's bookkeeping what was taken out of the istates?"""
        x = bare(F)
        if x[0] == "agg" and x[1][1] == FRAME:
            s = bare(x[2][list(x[1][3]).index("istate")])
            if s[0] == "." and s[4] == "Some":
                s = bare(s[1])
            return s[0] == "call" and s[3] in rm
        return False

    def partial(self, K, variant):
        def assume(kind, a):
            if kind == "call" and self.V.iset(self.fam, a[0], a[1], K, "are_all_set"):
                return 0
            if kind == "discr" and self.ev.state(self.fam, a[0], "variant") == K:
                return variant
            return None
        return assume


def fresh(rt, r):
    """a new frame owns its memory exactly when it was allocated for it"""
    for fam, bi, ty, v, line in aggs(rt, {FRAME}):
        st = bare(v["istate"])
        if st[0] != "agg" or st[1][1] != ISTATE:
            continue
        f = fkind(dict(zip(st[1][3], st[2]))["flags"])
        ds = rt.place(fam, v["data"])
        at = fam.g.where(bi, line)
        r.count("new frames")
        new = {d is not None and d[0] == "new" for d in ds}
        want = "ALLOCATED" if new == {True} else "EMPTY"
        r.check(f == want, rt.name + ":owns", "%s makes a frame that %s" % (rt.name, "doesn't own the memory allocated for it" if want == "ALLOCATED" else "owns memory that wasn't allocated for it"), at,
                "%s: a frame owns its memory exactly when it was allocated for it" % rt.name)


# ---------------------------------------------------------------- dropping the builder
def drops(p, r):
    """dropping the builder releases every frame and everything it keeps track of, parents first"""
    rts = [rt for rt in p.roots() if poly.self_ty(rt.fn) == WIP and poly.trait_of(rt.fn) and rt.fn.raw.get("item") == "drop"]
    if not r.check(len(rts) == 1, "drop:exists", "Wip no longer releases anything when it is dropped"):
        return
    rt = rts[0]
    ev = Ev(rt)
    o = Own(rt, ev, 0, rt.fams[0])
    fam, g, E = o.fam, o.g, o.E
    pops = {b for b, xs in E.items() for x in xs if x[0] == "O"}
    its = {b for b, xs in E.items() for x in xs if x[0] in ("Siter", "Skeys", "Siter_mut")}
    rms = {b: x for b, xs in E.items() for x in xs if x[0] == "Sremove"}
    sel = set()
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        if t[0] == "call" and t[2] and isinstance(g.fnval(t), dict):
            s = bare(fam.res(g.expr(t[2][0])))
            if any(x[0] == "call" and x[3] in its for x in walk(s)) and item_of(g.fnval(t)) not in ("iter", "into_iter", "by_ref", "map", "rev", "enumerate", "filter", "deref"):
                sel.add(bi)

    def some(v_pop, v_sel):
        def assume(kind, a):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] in pops:
                    return v_pop
                if x[0] == "call" and x[3] in sel:
                    return v_sel
                if x[0] == "call" and x[3] in rms:
                    return 1
            return None
        return assume
    r.check(bool(pops) and not rt.outcomes(fam, some(1, 0)), "Drop:frames", "dropping the builder leaves frames on the stack", rt.at, "Drop: every frame is taken off the stack")
    from .c_sets import partial
    skips = [b for b in sel if partial(bare(fam.res(g.expr(g.blocks[b]["t"][2][0]))))]
    r.check(not skips, "Drop:all", "dropping the builder leaves out some of what it keeps track of", g.where(skips[0]) if skips else rt.at, "Drop: everything tracked is looked at")
    r.check(bool(sel) and not rt.outcomes(fam, some(0, 1)), "Drop:tracked", "dropping the builder leaves values it keeps track of", rt.at, "Drop: everything tracked is released")
    r.check(bool(rt.outcomes(fam, some(0, 0))), "Drop:ends", "dropping the builder never ends", rt.at)
    # what is taken is what was found, and it is released
    for b, x in rms.items():
        ks = {("own", rt.fkey(fam, y)) for y in flat(x[1][1])}
        good = any(z[0] == "call" and z[3] in sel for y in flat(x[1][1]) for z in walk(bare(y)))
        r.check(good, "Drop:which", "dropping the builder takes out another value's bookkeeping than the one it found", g.where(b), "Drop: what it found")
        evs = {bb: [y for y in ys if y[0] in ("R", "Sremove")] for bb, ys in E.items()}
        bad = []

        def step(st, y, bi):
            if y[0] == "Sremove":
                if st == "rm":
                    bad.append(bi)
                return "rm"
            if st == "rm" and o.removed(y[2], {b}) and (y[1] in ks or y[1] == o.id_of(x[1][1])):
                return ""
            return st
        outs = rt.outcomes(fam, some(0, 1), auto=("", evs, step))
        r.check(not bad and not any(st == "rm" for st, v in outs), "Drop:release", "dropping the builder forgets a value without releasing it", g.where(b), "Drop: what is taken out is released")
    # parents first
    for b in sel:
        f = g.fnval(g.blocks[b]["t"])
        it = item_of(f)
        by_depth = None
        if it in ("min_by_key", "max_by_key", "min_by", "max_by"):
            for f2 in rt.fams:
                if f2.at and f2.at[0] is fam and f2.at[1] == b:
                    e = bare(f2.g.local_expr(0))
                    if it.endswith("by_key"):
                        by_depth = fld(e, "depth") is not None
                    else:
                        by_depth = any(y[0] == "." and y[3] == "depth" for y in walk(e)) or None
        elif any(x[0] == "call" and item_of(x[1]) in ("lt", "le", "gt", "ge", "cmp") for bb in g.reachable() for x in [("call", g.fnval(g.blocks[bb]["t"]), [], bb)] if g.blocks[bb]["t"][0] == "call" and isinstance(x[1], dict)) \
                or any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge") for bb in g.reachable() for s in g.blocks[bb]["s"]):
            by_depth = None  # compares depths itself: not decided here
            continue
        r.check(it in ("min_by_key", "min_by") and by_depth is not False, "Drop:order", "dropping the builder may release a part before the whole it is in, which would then drop it again", g.where(b),
                "Drop: parents before their parts")


def evictor(p, r):
    """forgetting a tree forgets all of it and hands the frame back"""
    n = 0
    for rt in p.roots():
        if poly.self_ty(rt.fn) != WIP or rt.fn.id in p.cleaners or not p.takes_frame(rt.fn):
            continue
        i = [i for i in range(rt.fn.body["argc"]) if p.argty(rt.fn, i).get("def") == FRAME][0]
        o = Own(rt, Ev(rt), 0, rt.fams[0])
        K = ("own", rt.fkey(o.fam, ("p", i)))
        n += 1
        ls, why = o.evicts(K)
        outs = {st for st, v in rt.outcomes(o.fam, o.base, auto=("", {b: ["l"] for b in ls}, lambda st, x, bi: "l"))}
        r.check(bool(ls) and outs == {"l"}, rt.name + ":evict", "%s %s" % (rt.name, why), rt.at, "%s: forgets every field, and its fields" % rt.name)
        did = [b for b, xs in o.E.items() for x in xs if x[0] in ("X", "D", "R")]
        r.check(not did, rt.name + ":evict:drop", "%s releases what it should only forget" % rt.name, o.g.where(did[0]) if did else rt.at)
        r.check(all(bare(x) == ("p", i) for x in live(rt.g.local_expr(0))), rt.name + ":evict:same", "%s hands back another frame" % rt.name, rt.at)
    r.check(n > 0, "evict:exists", "the function that forgets a tree is no longer there to decide")


def root(p, r):
    """handing out the built value: the builder forgets it, then and only then"""
    for rt in p.roots():
        if poly.trait_of(rt.fn) or rt.fn.raw.get("item") != "build" or poly.self_ty(rt.fn) != WIP:
            continue
        o = Own(rt, Ev(rt), 0, rt.fams[0])
        fam, g, E = o.fam, o.g, o.E
        heaps = [(bi, v) for f2, bi, ty, v, line in aggs(rt, {HEAP}) if f2 is fam]
        pops = {b for b, xs in E.items() for x in xs if x[0] == "O" and x[2] == "pop"}
        done = {bi for bi, v in heaps}

        def full(kind, a):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] in pops:
                    return 1
            return o.base(kind, a)
        vis = rt.reach(fam, full)
        r.check(bool(done) and not vis & done, rt.name + ":frames", "%s hands out a value while frames are still on the stack" % rt.name, rt.at, "%s: every frame is accounted for first" % rt.name)
        for hb, v in heaps:
            gd = fld(v["guard"], "guard")
            x = bare(v["guard"])
            if x[0] == "agg" and x[1][2] == "Some":
                x = bare(x[2][0])
            if not r.check(x[0] == "agg" and x[1][1] == GUARD, rt.name + ":guard", "%s hands out memory whose origin is not recognised" % rt.name, g.where(hb)):
                continue
            Ks = rt.place(fam, x[2][list(x[1][3]).index("ptr")])
            if not r.check(len(Ks) == 1 and None not in Ks, rt.name + ":guard", "%s hands out memory whose origin is not recognised" % rt.name, g.where(hb)):
                continue
            K = next(iter(Ks))
            rms = {b for b, xs in E.items() for y in xs if y[0] == "Sremove" and o.id_of(y[1][1]) == K}
            ls = set()
            why = "does not forget what it knows about the value it hands out"
            for b in rms:
                # the frame recomposed from what was removed
                for bb, xs in E.items():
                    pass
            ls, why2 = o.evicts(K)
            evs = {b: ["rm"] for b in rms}
            for b in ls:
                evs[b] = evs.get(b, []) + ["l"]

            def step(st, x, bi):
                return st | {x}

            def assume(kind, a):
                if kind == "discr":
                    x = bare(a[0])
                    if x[0] == "call" and x[3] in rms:
                        return 1
                return o.base(kind, a)
            outs = rt.outcomes(fam, assume, auto=(frozenset(), evs, step))
            r.check(not any("rm" in st and not ok(w) for st, w in outs), rt.name + ":early", "%s gives up the value before it is sure to hand it out" % rt.name, g.where(hb),
                    "%s: the value is only given up when it is handed out" % rt.name)
            r.check(all("rm" in st for st, w in outs if ok(w)), rt.name + ":root", "%s hands out a value that the builder will release too" % rt.name, g.where(hb),
                    "%s: the builder forgets the value it hands out" % rt.name)
            r.check(all("l" in st for st, w in outs if ok(w)), rt.name + ":parts", "%s hands out a value whose parts the builder will release too" % rt.name, g.where(hb),
                    "%s: the builder forgets its parts" % rt.name)


# ---------------------------------------------------------------- heap values
def holder(fam, p, n=0):
    """local X when place p is X.guard, through references"""
    if n > 12:
        return None
    pr = [x for x in p[1] if x != "*"]
    if pr:
        if isinstance(pr[-1], list) and pr[-1][0] == "f" and pr[-1][2] == "guard":
            return home(fam, p[0])
        return None
    ds = fam.g.defs.get(p[0], [])
    if len(ds) != 1:
        return None
    rv = ds[0][2]
    if rv[0] in ("ref", "raw"):
        return holder(fam, rv[2], n + 1)
    if rv[0] == "use" and rv[1][0] in ("c", "m"):
        return holder(fam, rv[1][1], n + 1)
    if rv[0] == "cast" and rv[2][0] in ("c", "m"):
        return holder(fam, rv[2][1], n + 1)
    return None


def home(fam, l, n=0):
    """the local a value was first put in"""
    ds = fam.g.defs.get(l, [])
    if len(ds) == 1 and n < 12:
        rv = ds[0][2]
        if rv[0] == "use" and rv[1][0] in ("c", "m") and not rv[1][1][1]:
            return home(fam, rv[1][1][0], n + 1)
    return l


def heap(p, r):
    n = 0
    for rt in p.roots():
        fam = rt.fams[0]
        g = fam.g
        ev = Ev(rt)
        o = Own(rt, ev, 0, fam)
        evs = {}
        takes = {}

        def tyof(pl, b):
            cr, ti = g.locals[pl[0]]
            return g.tyname(cr, ti, b["fr"]) if isinstance(ti, int) and not pl[1] else ""

        def add(bi, *x):
            evs.setdefault(bi, []).append(x)

        def empty(rv, n=0):
            """is the stored value None?"""
            if rv[0] == "agg":
                return rv[1][0] == "adt" and rv[1][2] == "None"
            if rv[0] == "use" and rv[1][0] in ("c", "m") and not rv[1][1][1] and n < 6:
                ds = g.defs.get(rv[1][1][0], [])
                return len(ds) == 1 and empty(ds[0][2], n + 1)
            return False
        moves = {}
        for bi in sorted(g.reachable()):
            b = g.blocks[bi]
            for s in b["s"]:
                if s[0] == "=" and s[1][1] and empty(s[2]):
                    L = holder(fam, s[1])
                    if L is not None:
                        add(bi, "take", L)
                        takes[L] = bi
            t = b["t"]
            if t[0] == "drop":
                ty = tyof(t[1], b)
                if ty.endswith("heap_value::Guard"):
                    add(bi, "free")
                elif "HeapValue<" in ty and not t[1][1]:
                    add(bi, "dropheap", home(fam, t[1][0]))
            elif t[0] == "call" and isinstance(g.fnval(t), dict):
                f = g.fnval(t)
                it = item_of(f)
                if it == "drop" and t[2] and t[2][0][0] in ("c", "m"):
                    ty = tyof(t[2][0][1], b)
                    if ty.endswith("heap_value::Guard") or ty.endswith("Option<wip::heap_value::Guard>"):
                        add(bi, "free")
                elif it in ("take", "replace") and t[2] and t[2][0][0] in ("c", "m"):
                    L = holder(fam, t[2][0][1])
                    if L is not None:
                        add(bi, "take", L)
                        takes[L] = bi
                elif it.startswith("read") and "ptr" in fname(f) or it == "read":
                    if any(k and k[0] in ("heap", "new") for k in rt.place(fam, fam.res(g.expr(t[2][0])))):
                        add(bi, "move")
                elif it == "put_shape":
                    ks = rt.place(fam, fam.res(g.expr(t[2][1])))
                    if any(k and k[0] in ("heap", "new") for k in ks):
                        moves[bi] = "whole"
                    elif any(k and k[0] == "field" and k[1][0] in ("heap", "new") for k in ks):
                        moves[bi] = "part"
                        o.part = True
        for bi, xs in ev.events(0).items():
            for x in xs:
                if x[0] == "X" and x[1] and x[1][0] in ("heap", "new"):
                    add(bi, "drop")
        if not takes and not moves and not any(x[0] == "move" for xs in evs.values() for x in xs):
            continue
        took = set(takes)
        for b, xs in evs.items():
            for x in xs:
                if x[0] == "dropheap":
                    takes.setdefault(x[1], b)
        parts = any(v == "part" for v in moves.values())
        for L in takes:
            n += 1
            for res in (0, 1):
                if res == 1 and not moves:
                    continue

                def step(st, x, bi):
                    tk, fr, mv, dr = st
                    if x[0] == "take" and x[1] == L:
                        return (min(tk + 1, 2), fr, mv, dr)
                    if x[0] == "free":
                        return (tk, min(fr + 1, 2), mv, dr)
                    if x[0] in ("move", "drop"):
                        return (tk, fr, min(mv + 1, 2), dr)
                    if x[0] == "dropheap" and x[1] == L:
                        return (tk, fr, mv, min(dr + 1, 2))
                    return st
                e2 = dict(evs)
                if res == 0:
                    for b, w in moves.items():
                        if w == "whole":
                            e2[b] = e2.get(b, []) + [("move",)]

                def assume(kind, a):
                    if kind == "discr":
                        x = bare(a[0])
                        if x[0] == "call" and x[3] in moves:
                            return res
                        if x[0] == "." and x[3] == "guard":
                            return 1  # what is taken apart is there
                    return both(o.has_drop, o.base)(kind, a)
                outs = rt.outcomes(fam, assume, auto=((0, 0, 0, 0), e2, step))
                at = g.where(takes[L])
                for (tk, fr, mv, dr), v in outs:
                    if tk:
                        r.check(fr == 1, rt.name + ":heap:free", "%s takes a heap value's memory and doesn't free it exactly once" % rt.name, at, "%s: the memory is freed once" % rt.name)
                        if not parts:
                            r.check(mv == 1, rt.name + ":heap:value", "%s %s a heap value" % (rt.name, "moves or drops, twice," if mv else "neither moves nor drops"), at, "%s: the value is moved or dropped once" % rt.name)
                    elif mv and (dr or L in took):
                        r.bad(rt.name + ":heap:both", "%s moves or drops what is in a heap value that will drop it again" % rt.name, at)
        if parts:
            piecewise(rt, o, moves, r)
    r.count("heap values taken apart", n)
    r.floor("heap values taken apart", 3)
    # the guard itself
    for rt in p.roots():
        if poly.self_ty(rt.fn) == GUARD and poly.trait_of(rt.fn):
            o = Own(rt, Ev(rt), 0, rt.fams[0])
            ds = {b: ["d"] for b, xs in o.E.items() for x in xs if x[0] == "D"}
            for sz in (0, 1):
                outs = {st for st, v in rt.outcomes(o.fam, o.sized(sz), auto=(0, ds, lambda st, x, bi: st + 1))}
                r.check(outs == {sz}, rt.name + ":free:%d" % sz, "%s" % ("memory is not freed exactly once" if sz else "memory that was never allocated is freed"), rt.at, "%s: freed exactly when it has a size" % rt.name)


def piecewise(rt, o, moves, r):
    """a value that is taken apart: each of its fields is moved or dropped, once"""
    fam, g = o.fam, o.g
    field = {}
    for bi, w in moves.items():
        if w == "part":
            for k in rt.place(fam, fam.res(g.expr(g.blocks[bi]["t"][2][1]))):
                field.setdefault(frozenset(i[1] for i in k[2]), []).append((bi, "move"))
    for bi, xs in o.E.items():
        for x in xs:
            if x[0] == "X" and x[1] and x[1][0] == "field" and x[1][1][0] in ("heap", "new"):
                field.setdefault(frozenset(i[1] for i in x[1][2]), []).append((bi, "drop"))
    for ix, where in field.items():
        if not r.check(len(ix) == 1 and next(iter(ix))[0] == "it", rt.name + ":parts:which", "%s takes apart a value one field at a time without going through them" % rt.name, rt.at):
            continue
        lp = next(iter(ix))[1]
        evs = {}
        for b, w in where:
            evs.setdefault(b, []).append(w)
        evs[lp] = ["next"]
        for set_ in (0, 1):
            def assume(kind, a):
                if kind == "discr":
                    x = bare(a[0])
                    if x[0] == "call" and x[3] == lp:
                        return 1
                    if x[0] == "call" and x[3] in moves:
                        return 0
                if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) == "has" and len(a[1]) == 2 and poly.index(rt, a[1][1]) == ("it", lp):
                    return set_
                return both(o.has_drop, o.base)(kind, a)
            got = set()

            def step(st, x, bi):
                if st == "end":
                    return st
                if x == "next":
                    got.add(st)
                    return "end"
                return (st + " " + x).strip()
            start = [s for s in g.succs(lp) if s is not None][0]
            outs = rt.outcomes(fam, assume, start=start, auto=("", evs, step))
            got |= {st for st, v in outs if ok(v) and st != "end"}
            r.check(got == {"drop" if set_ else "move"}, rt.name + ":parts:%d" % set_, "%s %s" % (rt.name, "doesn't drop, once, a field's value that isn't needed" if set_ else "doesn't move, once, a field's value into the one missing"), rt.at,
                    "%s: each field is moved or dropped" % rt.name)
        for b, w in where:
            if w != "move":
                continue
            fi = [(bi, fam.res(g.expr(g.blocks[bi]["t"][2][1]))) for bi in g.reachable() if g.blocks[bi]["t"][0] == "call" and isinstance(g.fnval(g.blocks[bi]["t"]), dict)
                  and item_of(g.fnval(g.blocks[bi]["t"])) == "field" and len(g.blocks[bi]["t"][2]) == 2]
            for bi, i in fi:
                r.check(poly.index(rt, i) == ("it", lp), rt.name + ":parts:same", "%s moves a field's value into another field" % rt.name, g.where(bi), "%s: into the same field" % rt.name)


# ---------------------------------------------------------------- values given by the caller
def puts(p, r):
    """what the caller gives is put, or given back or dropped, never both"""
    n = 0
    for rt in p.roots():
        if poly.self_ty(rt.fn) != WIP:
            continue
        fam = rt.fams[0]
        g = fam.g
        ev = Ev(rt)
        o = Own(rt, ev, 0, fam)
        calls_ = {bi for bi in g.reachable() if g.blocks[bi]["t"][0] == "call" and isinstance(g.fnval(g.blocks[bi]["t"]), dict) and item_of(g.fnval(g.blocks[bi]["t"])) == "put_shape"}
        vals = [i for i in range(rt.fn.body["argc"]) if rt.prog.argty(rt.fn, i).get("k") == "param"]
        if calls_ and vals:
            for i in vals:
                n += 1
                evs = {}
                for bi in sorted(g.reachable()):
                    t = g.blocks[bi]["t"]
                    x = None
                    if t[0] == "drop":
                        x = fam.res(g.place_expr(t[1]))
                    elif t[0] == "call" and isinstance(g.fnval(t), dict) and item_of(g.fnval(t)) == "drop" and t[2]:
                        x = fam.res(g.expr(t[2][0]))
                    if x is not None:
                        y = bare(x)
                        while y[0] == "call" and item_of(y[1]) in ("into_inner", "new", "take", "assume_init") and y[2]:
                            y = bare(y[2][0])
                        if y == ("p", i):
                            # dropping a ManuallyDrop does nothing
                            ty = g.tyname(*g.locals[t[1][0]], g.blocks[bi]["fr"]) if t[0] == "drop" and isinstance(g.locals[t[1][0]][1], int) else ""
                            if "ManuallyDrop<" not in ty:
                                evs[bi] = ["d"]
                for res in (0, 1):
                    def assume(kind, a):
                        if kind == "discr":
                            x = bare(a[0])
                            if x[0] == "call" and x[3] in calls_:
                                return res
                        return o.base(kind, a)
                    outs = {st for st, v in rt.outcomes(fam, assume, auto=(0, evs, lambda st, x, bi: min(st + 1, 2)))}
                    r.check(outs == {res}, rt.name + ":given:%d" % res, "%s %s" % (rt.name, "leaks, or drops twice, a value it refused" if res else "drops a value that it put"), rt.at,
                            "%s: a value is %s" % (rt.name, "dropped when refused" if res else "not dropped when it was put"))
        if rt.fn.raw.get("unsafe") and rt.fn.raw.get("item") == "put_shape":
            n += 1
            evs = {b: [x for x in xs if x[0] in ("W", "H")] for b, xs in o.E.items()}

            def step(st, x, bi):
                return st + 1 if x[0] == "W" and st < 2 else st
            outs = rt.outcomes(fam, o.base, auto=(0, evs, step))
            r.check(all(st == 0 for st, v in outs if not ok(v)), rt.name + ":refused", "%s uses a value that it then refuses" % rt.name, rt.at, "%s: a value that is refused is left alone" % rt.name)
            r.check(all(st == 1 for st, v in outs if ok(v)), rt.name + ":once", "%s doesn't put a value exactly once" % rt.name, rt.at, "%s: put once" % rt.name)
    r.check(n >= 2, "puts:floor", "the functions that put a caller's value are no longer there to decide")
