"""The builder's other promises: the tag a variant gets (C17), who owns what is written (C19), which part is selected (C20)."""
from . import flow, vt, poly
from .flow import walk
from .vt import fname
from .poly import bare, fld, item_of
from .c_peek import aggs, calls, label, INTS, WIDTH, idx_bound, selection, success, failure, live
from .c_wip import program, flat, const, frames_of, slot, mode_const, WIP, FRAME, ISTATE, MODE, FLAGS, HEAP, GUARD, ISET, PEEK, VID
from .c_build import Ev, View, both, on_stack, ok, cleared, fkind, indices


# ---------------------------------------------------------------- C17: tags
def repr_is(rt, K, d):
    """assumption: the representation of K's enum is the one with number d"""
    def assume(kind, a):
        if kind == "discr":
            e = bare(a[0])
            if e[0] == "." and e[3] == "repr":
                return d
        return None
    return assume


def cast_chain(g, e):
    """(types a value was cast through, innermost first; the value)"""
    seq = []
    y = bare(e)
    while y[0] == "cast":
        cr, ti = y[3]
        seq.append(cr.types[ti]["s"] if isinstance(ti, int) else str(ti))
        y = bare(y[2])
    return seq[::-1], y


def c17(fx, r):
    p = program(fx)
    r.rule("selecting variant i of an enum writes, once, at the start of the value itself, in the integer type its representation stands for, the discriminant recorded for variant i; "
           "an index past the end and a value that is no enum are refused and nothing is written")
    n = 0
    for rt in p.roots():
        ev = Ev(rt)
        for fi, fam in enumerate(rt.fams):
            E = ev.events(fi)
            Ts = {b: [x for x in xs if x[0] == "T"] for b, xs in E.items() if any(x[0] == "T" for x in xs)}
            if Ts:
                n += 1
                tags(rt, ev, fam, E, Ts, r)
    r.floor("tag stores", 10)


def tags(rt, ev, fam, E, Ts, r):
    g = fam.g
    V = View(ev)
    p = rt.prog
    nm = rt.name
    Ks = {x[1] for xs in Ts.values() for x in xs}
    if not r.check(len(Ks) == 1, nm + ":one", "%s writes tags into several values" % nm, rt.at):
        return
    K = next(iter(Ks))
    enum = V.with_def(fam, K, p.defs["Enum"])
    slices, idx = [], []
    for b, xs in Ts.items():
        at = g.where(b)
        for x in xs:
            r.count("tag stores")
            seq, y = cast_chain(g, x[3])
            D = fld(y, "discriminant")
            if not r.check(D is not None, nm + ":what", "%s writes something else than a variant's discriminant as the tag" % nm, at):
                continue
            wide = all(s in WIDTH and x[2] in WIDTH and WIDTH[s][1] >= WIDTH[x[2]][1] for s in seq)
            r.check(wide, nm + ":narrow", "%s loses bits of the discriminant (%s to %s)" % (nm, " to ".join(["i64"] + seq), x[2]), at)
            el = poly.elem(rt, D)
            if not r.check(el is not None, nm + ":which", "%s writes the tag of a variant that is not one of the enum's list" % nm, at):
                continue
            r.check(el[1] == ("e", rt.canon(("p", 1))), nm + ":index", "%s writes the tag of another variant than the one at the index" % nm, at, "%s: the discriminant of the variant at the index" % nm)
            sl = poly.slice_of(rt, D)
            d = fld(sl, "variants") if sl is not None else None
            own = d is not None and d[0] == "." and d[4] == "Enum" and V.is_def(fam, d[1], K)
            r.check(own, nm + ":list", "%s takes the variant from another enum's list" % nm, at, "%s: from the value's own enum" % nm)
            slices.append(rt.canon(sl))
    # the width, and exactly once
    evs = {b: xs for b, xs in Ts.items()}
    for name, d in p.reprs.items():
        want = INTS.get(name)
        if not r.check(want is not None, "repr:" + name, "the representation %s has no integer type this check knows" % name, rt.at):
            continue
        r.count("representations")
        got = set()

        def step(st, x, bi):
            got.add((x[2], bi))
            return min(st + 1, 2)
        outs = rt.outcomes(fam, both(enum, repr_is(rt, K, d), lambda k, a: V.base(fam, k, a)), auto=(0, evs, step))
        bad = sorted((t, b) for t, b in got if t != want)
        r.check(not bad, nm + ":type:" + name, "%s writes the tag of a repr(%s) enum as %s" % (nm, want, bad[0][0] if bad else ""), g.where(bad[0][1]) if bad else rt.at,
                "%s: EnumRepr::%s is written as %s" % (nm, name, want))
        cnt = {st for st, v in outs if ok(v)}
        r.check(cnt == {1}, nm + ":once:" + name, "%s succeeds for a repr(%s) enum without writing its tag exactly once" % (nm, want), rt.at, "%s: one tag for repr(%s)" % (nm, want))
        cnt = {st for st, v in outs if not ok(v)}
        r.check(not cnt - {0}, nm + ":err:" + name, "%s reports an error after it wrote a tag" % nm, rt.at)
    # bounds
    i_of = lambda e: bare(e) == ("p", 1)

    def n_of(e):
        e = bare(e)
        if e[0] == "un" and e[1] == "PtrMetadata":
            return rt.canon(bare(e[2])) in slices
        return e[0] == "call" and item_of(e[1]) == "len" and rt.canon(bare(e[2][0])) in slices
    bounds(rt, fam, r, nm, both(enum, lambda k, a: V.base(fam, k, a)), n_of, i_of, set(Ts))
    for name, d in p.defs.items():
        if name == "Enum":
            continue
        vis = set()
        outs = {v for _, v in rt.outcomes(fam, V.with_def(fam, K, d), vis)}
        r.check(not any(ok(v) for v in outs) and not vis & set(Ts), nm + ":kind:" + name, "%s goes on for a %s" % (nm, name.lower()), rt.at, "%s: a %s is refused" % (nm, name.lower()))


def bounds(rt, fam, r, nm, base, n_of, i_of, effects):
    """an index past the end: an error, no effect and no panic; within: not refused for that"""
    g = fam.g
    hi = both(idx_bound(rt, n_of, i_of, False), base)
    vis = set()
    outs = {v for _, v in rt.outcomes(fam, hi, vis)}
    r.check(bool(outs) and all(failure(x) for x in outs), nm + ":beyond", "%s does not refuse an index past the end" % nm, rt.at, "%s: an index past the end is refused" % nm)
    r.check(not vis & effects, nm + ":beyond:effect", "%s changes the value before it refuses an index past the end" % nm, rt.at)
    for bi in vis:
        t = g.blocks[bi]["t"]
        if t[0] == "assert" and "Bounds" in str(t[3][0]):
            c = fam.res(g.expr(t[1]))
            if c[0] == "bin" and i_of(c[2]) and n_of(c[3]):
                r.bad(nm + ":panic", "%s panics for an index past the end" % nm, g.where(bi))
    lo = both(idx_bound(rt, n_of, i_of, True), base)
    outs = {v for _, v in rt.outcomes(fam, lo)}
    r.check(any(success(x) for x in outs), nm + ":within", "%s refuses an index within bounds" % nm, rt.at)


# ---------------------------------------------------------------- C20: what is selected
def c20(fx, r):
    p = program(fx)
    r.rule("each operation that selects a part of the value being built selects the one asked for: the field or variant at the index, or with the name, of the current frame's own struct, selected variant or enum; "
           "an index past the end, an unknown name and a value of another kind are refused; the frame pushed for a part says which part it is")
    by = {}
    for rt in p.roots():
        s = poly.self_ty(rt.fn)
        if s == WIP and not poly.trait_of(rt.fn):
            by[rt.fn.raw.get("item")] = rt
    for n in ("field", "is_field_set"):
        if r.check(n in by, n + ":exists", "Wip::%s is no longer there to decide" % n):
            by_number(by[n], r)
    for n, what in (("field_index", "fields"), ("field_named", "fields"), ("find_variant", "variants"), ("variant_named", "variants")):
        if r.check(n in by, n + ":exists", "Wip::%s is no longer there to decide" % n):
            by_name(by[n], what, r)
    for n in ("field",):
        if n in by:
            selects(by[n], r)
            resumes(by[n], r)
    asks(by, r)
    steps(p, by, r)
    for rt in p.roots():
        levels(rt, r)
    r.floor("index lookups", 2)
    r.floor("name lookups", 4)
    r.floor("questions", 8)


def is_top(rt, k):
    """is a frame key the current frame's, as the function finds it?"""
    if k is None or k[0] != "own":
        return False
    k = k[1]
    return k[0] == "top" and k[2] == frozenset({-1}) and k[1] == frozenset({rt.canon(("p", 0))})


def top_keys(rt, fam):
    """keys by which the function refers to the current frame it was given"""
    g = fam.g
    out = set()
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        if t[0] == "call" and item_of(g.fnval(t)) in ("last", "last_mut", "index", "index_mut") and t[2]:
            a = [fam.res(g.expr(x)) for x in t[2]]
            if frames_of(a[0]) is not None:
                e = ("call", g.fnval(t), a, bi)
                k = rt.fkey(fam, (".", e, 0, None, "Some") if item_of(g.fnval(t)).startswith("last") else e)
                if is_top(rt, ("own", k)):
                    out.add(("own", k))
                elif k[0] == "at" and k[3] == frozenset({-1}) and from_end(rt, k, a[1]):
                    out.add(("own", k))
    return out


def from_end(rt, k, i):
    from .c_wip import from_top_index
    return from_top_index(rt, i, 1) is True


def of_current(rt, V, fam, kind):
    """assumption: the current frame's value is of the given kind"""
    Ks = top_keys(rt, fam)

    def assume(k, a):
        if k == "discr" and any(V.is_def(fam, a[0], K) for K in Ks):
            return rt.prog.defs[kind]
        return V.base(fam, k, a)
    return assume


def variant_is(rt, V, fam, v):
    Ks = top_keys(rt, fam)

    def assume(k, a):
        if k == "discr" and V.ev.state(fam, a[0], "variant") in Ks:
            return int(v)
        return None
    return assume


def has_frames(kind, a):
    """there is a current frame, however it is asked for"""
    if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("last", "last_mut") and a[1] and frames_of(a[1][0]) is not None:
        return ("v", "Some", 1)
    return None


def by_number(rt, r):
    nm = rt.name
    ev = Ev(rt)
    V = View(ev)
    fam = rt.fams[0]
    g = fam.g
    r.count("index lookups")
    i_of = lambda e: bare(e) == ("p", 1)
    tops = top_keys(rt, fam)
    pushed = {b for b in g.reachable() if g.blocks[b]["t"][0] == "call" and item_of(g.fnval(g.blocks[b]["t"])) == "push"}

    def n_of(e):
        e = bare(e)
        s = e[2] if e[0] == "un" and e[1] == "PtrMetadata" else e[2][0] if e[0] == "call" and item_of(e[1]) == "len" and e[2] else None
        return s is not None and all(rt.slice_owner(fam, x) in tops for x in flat(s))
    for kind in rt.prog.defs:
        asm = both(of_current(rt, V, fam, kind), has_frames)
        if kind == "Struct":
            bounds(rt, fam, r, nm + ":" + kind, asm, n_of, i_of, pushed)
        elif kind == "Enum":
            bounds(rt, fam, r, nm + ":" + kind, both(variant_is(rt, V, fam, True), asm), n_of, i_of, pushed)
            asm = both(variant_is(rt, V, fam, False), asm)
        if kind != "Struct":
            vis = set()
            outs = {v for _, v in rt.outcomes(fam, asm, vis)}
            r.check(bool(outs) and all(failure(x) for x in outs) and not vis & pushed, nm + ":kind:" + kind,
                    "%s goes on for %s" % (nm, "an enum without a variant" if kind == "Enum" else "a " + kind.lower()), rt.at, "%s: refused for %s" % (nm, kind.lower()))
    if rt.fn.raw.get("item") != "is_field_set":
        return
    for x in live(rt.g.local_expr(0)):
        y = bare(x)
        if y[0] == "agg" and y[1][2] == "Ok":
            c = bare(y[2][0])
            good = c[0] == "call" and item_of(c[1]) == "has" and ev.state(fam, c[2][0], "fields") in tops and i_of(c[2][1])
            r.check(good, nm + ":answer", "%s does not answer with the mark of the field at the index" % nm, rt.at, "%s: the mark at the index" % nm)


def by_name(rt, what, r):
    nm = rt.name
    ev = Ev(rt)
    V = View(ev)
    fam = rt.fams[0]
    g = fam.g
    r.count("name lookups")
    tops = top_keys(rt, fam)
    mk = selection(rt, "name", lambda e: bare(e) == ("p", 1))
    target = {"field_named": "field", "variant_named": "variant"}.get(rt.fn.raw.get("item"))
    sel = {b for b in g.reachable() if g.blocks[b]["t"][0] == "call" and isinstance(g.fnval(g.blocks[b]["t"]), dict) and item_of(g.fnval(g.blocks[b]["t"])) == target
           and poly.self_ty(rt.prog.callee(g.fnval(g.blocks[b]["t"]), g.blocks[b]["fn"].crate)) == WIP} if target else set()
    kinds = ("Struct", "Enum") if what == "fields" else ("Enum",)
    every = []
    for kind in rt.prog.defs:
        asm = both(of_current(rt, V, fam, kind), has_frames)
        if kind == "Enum" and what == "fields":
            asm = both(variant_is(rt, V, fam, True), asm)
        seen = []
        vis = set()
        outs = {v for _, v in rt.outcomes(fam, both(mk(False, seen), asm), vis)}
        good = bool(outs) and all(failure(x) for x in outs) and not vis & sel
        r.check(good, nm + ":unknown:" + kind, "%s does not refuse %s" % (nm, "a name nothing has" if kind in kinds else "a " + kind.lower()), rt.at,
                "%s: refuses %s" % (nm, "an unknown name" if kind in kinds else "a " + kind.lower()))
        if kind not in kinds:
            continue
        every += seen
        if not r.check(bool(seen), nm + ":compare:" + kind, "%s does not compare the names of %s with the one asked for" % (nm, what), rt.at):
            continue
        for o in seen:
            s = poly.slice_of(rt, o)
            if what == "fields":
                good = s is not None and all(rt.slice_owner(fam, x) in tops for x in flat(s))
            else:
                d = fld(s, "variants") if s is not None else None
                good = d is not None and d[0] == "." and d[4] == "Enum" and any(V.is_def(fam, d[1], K) for K in tops)
            r.check(good, nm + ":list", "%s searches another list than the current frame's own %s" % (nm, what), rt.at, "%s: the current frame's own %s" % (nm, what))
        vis = set()
        outs = {v for _, v in rt.outcomes(fam, both(mk(True), asm), vis)}
        r.check(bool(vis & sel) if target else any(not failure(x) for x in outs), nm + ":found:" + kind, "%s never finds a name that is there" % nm, rt.at)
    ids = {i[1] for i in (poly.elem(rt, o) for o in every) if i}
    if target:
        for b in sel:
            i = fam.res(g.expr(g.blocks[b]["t"][2][1]))
            for x in flat(i):
                r.check(index_of(rt, x) in ids, nm + ":same", "%s selects another one than that whose name matched" % nm, g.where(b), "%s: selects the one whose name matched" % nm)
        r.check(bool(sel), nm + ":selects", "%s selects nothing" % nm, rt.at)
        return
    for x in live(rt.g.local_expr(0)):
        y = bare(x)
        if y[0] == "agg" and y[1][2] == "None":
            continue
        if y[0] == "agg" and y[1][2] == "Some":
            z = bare(y[2][0])
            parts = z[2] if z[0] == "agg" and z[1][0] == "tuple" else [z]
            good = index_of(rt, parts[0]) in ids
            for q in parts[1:]:
                el = poly.elem(rt, q)
                good = good and el is not None and el[1] in ids
        elif y[0] == "call" and item_of(y[1]) == "position":
            good = ("it", y[3]) in ids
        else:
            good = False
        r.check(good, nm + ":same", "%s answers with another one than that whose name matched" % nm, rt.at, "%s: the one whose name matched" % nm)


def index_of(rt, e):
    """like poly.index, through ok_or and ?"""
    x = bare(e)
    for _ in range(8):
        if x[0] == "." and x[4] in ("Ok", "Some", "Continue"):
            y = bare(x[1])
            if y[0] == "call" and item_of(y[1]) in ("ok_or", "ok_or_else", "branch", "copied", "cloned") and y[2]:
                z = bare(y[2][0])
                while z[0] == "call" and item_of(z[1]) in ("ok_or", "ok_or_else", "branch") and z[2]:
                    z = bare(z[2][0])
                ks = {poly.index(rt, (".", w, 0, None, "Some")) for w in flat(z) if not (bare(w)[0] == "agg" and bare(w)[1][2] == "None")}
                return next(iter(ks)) if len(ks) == 1 else ("several", frozenset(ks))
        break
    return poly.index(rt, x)


def selects(rt, r):
    """the frame pushed is for the field at the index"""
    nm = rt.name
    fam = rt.fams[0]
    want = ("e", rt.canon(("p", 1)))
    n = 0
    for f2, bi, ty, v, line in aggs(rt, {FRAME}):
        if f2 is not fam:
            continue
        for d in rt.place(fam, v["data"]):
            if d is None or d[0] != "field":
                continue
            n += 1
            at = fam.g.where(bi, line)
            r.check(all(i[1] == want for i in d[2]), nm + ":which", "%s selects another field than the one at the index" % nm, at, "%s: the field at the index" % nm)
            r.check(d[1] in top_keys(rt, fam), nm + ":whose", "%s selects a field of something else than the current frame" % nm, at)
    r.check(n > 0, nm + ":none", "%s makes no frame for a field" % nm, rt.at)
    r.check(rt.prog.pushes_one(rt.fn), nm + ":push", "%s succeeds without putting exactly one frame on the stack" % nm, rt.at, "%s: one frame on the stack" % nm)


def resumes(rt, r):
    """going back to a field goes on with what is known about it: what was kept, or that it was written along with the whole"""
    nm = rt.name
    ev = Ev(rt)
    V = View(ev)
    fam = rt.fams[0]
    g = fam.g
    E = ev.events(0)
    gets = {b for b, xs in E.items() for x in xs if x[0] in ("Sremove", "Sget")}
    r.check(bool(gets), nm + ":resume", "%s does not look up what is known about the field" % nm, rt.at)
    evs = {b: [x for x in xs if x[0] in ("=istate", "M", "=fields")] for b, xs in E.items()}
    for b in g.reachable():
        t = g.blocks[b]["t"]
        if t[0] == "call" and item_of(g.fnval(t)) == "push" and t[2] and frames_of(fam.res(g.expr(t[2][0]))) is not None:
            evs[b] = evs.get(b, []) + [("push",)]
    tops = top_keys(rt, fam)

    def known(v, has):
        def assume(kind, a):
            if kind == "discr":
                x = bare(a[0])
                if x[0] == "call" and x[3] in gets:
                    return v
            if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) == "has" and ev.state(fam, a[1][0], "fields") in tops:
                return has
            return V.base(fam, kind, a)
        return assume

    def step(st, x, bi):
        if st == "done":
            return st
        if x[0] == "=istate":
            return "kept" if bare(x[2])[0] != "agg" else st
        if x[0] in ("M", "=fields"):
            return "marked" if st == "" else st
        return {"": "fresh"}.get(st, st) + "!"
    for v, h, want, what in ((1, 0, "kept!", "forgets what is known about a field it goes back to"), (1, 1, "kept!", "forgets what is known about a field it goes back to"),
                             (0, 1, "marked!", "takes a field that was written along with the whole for one that wasn't"),
                             (0, 0, "fresh!", "takes a field for one that was written when it wasn't")):
        outs = {st for st, o in rt.outcomes(fam, known(v, h), auto=("", evs, step)) if ok(o)}
        r.check(outs == {want}, nm + ":resume:%d%d" % (v, h), "%s %s" % (nm, what), rt.at, "%s: %s" % (nm, want.strip("!")))


def levels(rt, r):
    """a frame made for a field says which"""
    for fam, bi, ty, v, line in aggs(rt, {FRAME}):
        st = bare(v["istate"])
        if st[0] != "agg" or st[1][1] != ISTATE:
            continue
        at = fam.g.where(bi, line)
        ix = bare(v["field_index_in_parent"])
        for d in rt.place(fam, v["data"]):
            if d is None:
                continue
            if d[0] == "field":
                r.count("frames for fields")
                good = ix[0] == "agg" and ix[1][2] == "Some" and len({i[1] for i in d[2]}) == 1 and poly.index(rt, ix[2][0]) == next(iter(d[2]))[1]
                r.check(good, rt.name + ":level", "%s makes a frame for one field that says it is another" % rt.name, at, "%s: the frame's index is the field's" % rt.name)
            elif ix[0] == "agg" and ix[1][2] == "Some":
                c = const(ix[2][0])
                good = c is not None and str(c.get("bits")) == "0" and d[0] == "own"
                r.check(good, rt.name + ":level:none", "%s makes a frame that says it is a field of what is below it when it isn't" % rt.name, at)


def top_part(rt, fam, e, *path):
    """is e the current frame's part?"""
    x = bare(e)
    for f in reversed(path):
        x = fld(x, f)
        if x is None:
            return False
        x = bare(x)
    return ("own", rt.fkey(fam, x)) in top_keys(rt, fam)


def asks(by, r):
    """questions about the current frame are answered about the current frame"""
    def ask(n, good, what):
        rt = by.get(n)
        if not r.check(rt is not None, n + ":exists", "Wip::%s is no longer there to decide" % n):
            return
        r.count("questions")
        fam = rt.fams[0]
        es = [bare(x) for x in live(rt.g.local_expr(0))]
        es = [x for x in es if not (x[0] == "agg" and x[1][2] in ("Err", "None"))]
        r.check(bool(es) and all(good(rt, fam, x) for x in es), "Wip::%s:answer" % n, "Wip::%s does not answer with %s" % (n, what), rt.at, "Wip::%s: %s" % (n, what))

    def element(part, kind):
        def good(rt, fam, x):
            if not (x[0] == "agg" and x[1][2] == "Ok"):
                return False
            from .c_peek import accessor
            a = accessor(bare(x[2][0]), (part,))
            if a is None:
                return False
            y = bare(a[1])
            return y[0] == "." and y[4] == kind and any(View(Ev(rt)).is_def(fam, y[1], K) for K in top_keys(rt, fam))
        return good
    ask("shape", lambda rt, fam, x: top_part(rt, fam, x, "shape"), "the current frame's shape")
    ask("mode", lambda rt, fam, x: top_part(rt, fam, x, "istate", "mode"), "the current frame's mode")
    ask("selected_variant", lambda rt, fam, x: top_part(rt, fam, x, "istate", "variant"), "the current frame's variant")
    ask("frames_count", lambda rt, fam, x: x[0] == "call" and item_of(x[1]) == "len" and frames_of(x[2][0]) is not None, "the number of frames")
    ask("element_shape", element("t", "List"), "the element shape of the current frame's list")
    ask("key_shape", element("k", "Map"), "the key shape of the current frame's map")

    def sel(rt, what, asm, want, code):
        fam = rt.fams[0]
        outs = {v for _, v in rt.outcomes(fam, asm)}
        r.check(outs == want, rt.name + ":" + code, "%s %s" % (rt.name, what), rt.at, "%s: %s" % (rt.name, code))
    rt = by.get("in_option")
    if r.check(rt is not None, "in_option:exists", "Wip::in_option is no longer there to decide"):
        r.count("questions")
        fam = rt.fams[0]
        for n, d in rt.prog.modes.items():
            def asm(kind, a, d=d):
                if kind == "discr" and top_part(rt, fam, a[0], "istate", "mode"):
                    return d
                if kind == "eq":
                    for u, w in (a, a[::-1]):
                        if top_part(rt, fam, u, "istate", "mode") and mode_const(w):
                            return rt.prog.modes[mode_const(w)] == d
                return View(Ev(rt)).base(fam, kind, a)
            sel(rt, "does not say whether the current frame is an option's value (%s)" % n, asm, {int(n == "OptionSome")}, n)
    rt = by.get("current_is_type")
    if r.check(rt is not None, "current_is_type:exists", "Wip::current_is_type is no longer there to decide"):
        r.count("questions")
        fam = rt.fams[0]
        for v in (0, 1):
            seen = []

            def asm(kind, a, v=v):
                if kind == "eq":
                    for u, w in (a, a[::-1]):
                        if top_part(rt, fam, u, "shape") and poly.type_shape(rt, bare(w)) is not None:
                            seen.append(1)
                            return bool(v)
                return both(has_frames, lambda k, x: View(Ev(rt)).base(fam, k, x))(kind, a)
            outs = {o for _, o in rt.outcomes(fam, asm)}
            r.check(bool(seen) and outs == {v}, "Wip::current_is_type:%d" % v, "Wip::current_is_type does not say whether the current frame is of the type", rt.at)


def steps(p, by, r):
    """what goes down goes down by one level"""
    for n in ("field", "push", "push_some", "push_map_key", "push_map_value"):
        rt = by.get(n)
        if r.check(rt is not None, n + ":exists", "Wip::%s is no longer there to decide" % n):
            r.check(p.pushes_one(rt.fn), "Wip::%s:one" % n, "Wip::%s succeeds without putting exactly one frame on the stack" % n, rt.at, "Wip::%s: one frame more" % n)
    for n in ("put_default", "put_from_fn", "put_shape", "put", "parse", "put_empty_list", "put_empty_map", "begin_pushback", "begin_map_insert", "variant", "variant_named"):
        rt = by.get(n)
        if r.check(rt is not None, n + ":exists", "Wip::%s is no longer there to decide" % n):
            r.check(p.keeps_frames(rt.fn), "Wip::%s:stays" % n, "Wip::%s changes which frame is the current one" % n, rt.at, "Wip::%s: stays on the same frame" % n)
