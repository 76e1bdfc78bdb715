"""C06-C09: the functions behind the tables, decided on their resolved flow graphs."""
from . import vt
from .c_shapes import corpus, same_type
from .flow import walk

# table -> slot -> {parameter: role}; roles: S the described type, E element, K key, V value, P pointee,
# W the weak counterpart, R the strong counterpart, I the iterator state
ROLES = {
    "value": {
        "drop_in_place": {0: "S"}, "invariants": {0: "S"}, "display": {0: "S"}, "debug": {0: "S"},
        "default_in_place": {0: "S"}, "clone_into": {0: "S", 1: "S"}, "eq": {0: "S", 1: "S"},
        "partial_ord": {0: "S", 1: "S"}, "ord": {0: "S", 1: "S"}, "hash": {0: "S"}, "parse": {1: "S"},
        "type_name": {},
    },
    "List": {"init_in_place_with_capacity": {0: "S"}, "push": {0: "S", 1: "E"}, "len": {0: "S"}, "get_item_ptr": {0: "S"}},
    "Map": {"init_in_place_with_capacity_fn": {0: "S"}, "insert_fn": {0: "S", 1: "K", 2: "V"}, "len_fn": {0: "S"},
            "contains_key_fn": {0: "S", 1: "K"}, "get_value_ptr_fn": {0: "S", 1: "K"}, "iter_fn": {0: "S"}},
    "MapIter": {"next": {0: "I"}, "dealloc": {0: "I"}},
    "Array": {"get_item_ptr": {0: "S"}},
    "Slice": {"len": {0: "S"}, "get_item_ptr": {0: "S"}},
    "Option": {"is_some_fn": {0: "S"}, "get_value_fn": {0: "S"}, "init_some_fn": {0: "S", 1: "E"}, "init_none_fn": {0: "S"},
               "replace_with_fn": {0: "S", 1: "E"}},
    "SmartPointer": {"upgrade_into_fn": {0: "S", 1: "R"}, "downgrade_into_fn": {0: "S", 1: "W"}, "borrow_fn": {0: "S"},
                     "new_into_fn": {0: "S", 1: "P"}},
}

# what the pointer a table function returns points to
RETURNS = {
    ("List", "get_item_ptr"): "E", ("Array", "get_item_ptr"): "E", ("Slice", "get_item_ptr"): "E",
    ("Map", "get_value_ptr_fn"): "V", ("Option", "get_value_fn"): "E", ("SmartPointer", "borrow_fn"): "P",
}


def args_of(C, ty):
    """type arguments of the described type (through Opaque and the array/slice constructors)"""
    t = C.types[ty]
    if t.get("def", "").endswith("macros::Opaque"):
        return args_of(C, t["args"][0])
    if t["k"] in ("array", "slice"):
        return [t["args"][0]]
    if t["k"] in ("ref", "ptr"):
        return args_of(C, t["args"][0]) if C.types[t["args"][0]]["k"] == "slice" else [t["args"][0]]
    return [a for a in t.get("args", []) if isinstance(a, int)]


def role_types(C, s, role, iters=None):
    """type names a role may be viewed as"""
    a = args_of(C, s.ty)
    if role == "S":
        out = {C.ts(s.ty)}
        t = C.types[s.ty]
        if t.get("def", "").endswith("macros::Opaque"):
            out.add(C.ts(t["args"][0]))
        if t["k"] == "array":
            out.add(C.ts(t["args"][0]))  # a pointer to the array is a pointer to its first element
        return out
    if role in ("E", "K", "P"):
        out = {C.ts(a[0])} if a else set()
        if role == "P" and C.types[s.ty].get("def", "").endswith("NonNull") and a:
            out = {"*mut " + C.ts(a[0]), "*const " + C.ts(a[0])}
        return out
    if role == "V":
        return {C.ts(a[1])} if len(a) > 1 else set()
    if role in ("W", "R"):
        d = C.f(s.sh, "def")
        d = C.f(d, "0")
        f = C.opt(C.f(d, "weak" if role == "W" else "strong"))
        sh = C.shape_fn(f) if f is not None else None
        t = C.id_type(sh) if sh is not None else None
        return {C.ts(t)} if t is not None else set()
    return set()


ROLE_TEXT = {"S": "the value", "E": "the element", "K": "the key", "V": "the map value", "P": "the pointee", "W": "the weak pointer",
             "R": "the strong pointer", "I": "the iterator"}


def slots(fx, r):
    C = corpus(fx)
    L = vt.slots(fx, C)
    for s in L:
        r.count("table_functions")
    r.floor("table_functions", 3000)
    return C, L


def key(C, s, *more):
    return "|".join((s.table, s.slot, C.ts(s.ty)) + more)


def c06(fx, r):
    C, L = slots(fx, r)
    r.rule("in every function a shape's tables point to, each typed view (pointer cast) of a pointer parameter has that parameter's "
           "type: the described type, its element, key, value, pointee or its weak/strong counterpart; every such parameter is "
           "viewed; pointers handed to another shape's operations or returned are typed as what they stand for")
    # the iterator state each map's iter_fn makes
    made = {}
    for s in L:
        if s.table == "Map" and s.slot == "iter_fn":
            out = set()
            for e in s.events():
                if e.name.endswith("::into_raw") and "Box" in e.name:
                    a = (e.f.get("rargs") or e.f.get("args") or [])
                    if a and isinstance(a[0], int):
                        out.add(C.ts(a[0]))
            made[C.ts(s.ty)] = out
    for s in L:
        roles = ROLES.get(s.table, {}).get(s.slot)
        if roles is None:
            continue
        seen = set()
        for fam, bi, o, dp, line, e in s.views():
            r.count("typed_views")
            got = C.ts(dp)
            if o is None:
                continue
            p, path = o
            role = roles.get(p)
            where = fam.g.where(bi, line)
            if s.table == "value" and s.slot == "hash" and p in (1, 2):
                continue
            if role is None:
                r.bad(key(C, s, "p%d" % p), "%s views its parameter %d, which carries no value, as %s" % (s.label(), p, got), where)
                continue
            seen.add(p)
            if role == "I":
                if path == ():
                    want = made.get(C.ts(s.ty), set())
                else:
                    want = role_types(C, s, "S")
            else:
                want = role_types(C, s, role)
            if not want:
                continue
            if path and path[-1] == "*" and role != "I":
                continue
            r.check(got in want, key(C, s, "p%d" % p, got),
                    lambda: "%s treats %s it is given as `%s`, but it is `%s`" % (s.label(), ROLE_TEXT[role], got, " or ".join(sorted(want))),
                    where, "%s: %s viewed as %s" % (s.label(), ROLE_TEXT[role], got))
        for p, role in roles.items():
            want = role_types(C, s, role) if role != "I" else made.get(C.ts(s.ty), set())
            if not want or p in seen:
                continue
            if "u8" in want or "()" in want:
                continue  # the untyped pointer already is one
            if role == "S" and C.types[s.ty]["k"] == "array" and s.slot in ("default_in_place", "clone_into"):
                continue  # element by element
            size = size_of(C, s)
            if size == 0:
                continue
            r.bad(key(C, s, "unviewed", str(p)),
                  "%s never looks at %s it is given as `%s`" % (s.label(), ROLE_TEXT[role], " or ".join(sorted(want))), s.at)
        # pointers given to other shapes' operations
        for ev in s.events():
            if ev.fe is None:
                continue
            es = s.elem_slot(ev.fe)
            if es is None:
                continue
            sh, slot = es
            et = C.id_type(sh)
            for i, role in ROLES["value"].get(slot, {}).items():
                if i >= len(ev.args) or et is None:
                    continue
                tg = s.tagged(ev.args[i])
                if tg is None:
                    continue
                r.count("pointers_handed_on")
                r.check(C.ts(tg[0]) == C.ts(et), key(C, s, "handed", slot, C.ts(et)),
                        lambda: "%s hands a pointer to `%s` to the %s operation of the shape of `%s`" % (s.label(), C.ts(tg[0]), slot, C.ts(et)),
                        ev.where())
        # pointers returned
        role = RETURNS.get((s.table, s.slot))
        if role:
            want = role_types(C, s, role)
            if role == "P" and C.types[s.ty].get("def", "").endswith("NonNull"):
                want = {C.ts(args_of(C, s.ty)[0])}
            n = 0
            for x in walk(s.g.local_expr(0)):
                if x[0] == "agg" and x[1][0] == "adt" and x[1][1] in vt.PTRS:
                    tg = s.tagged(x)
                    if tg is None:
                        continue
                    n += 1
                    r.check(C.ts(tg[0]) in want, key(C, s, "returned"),
                            lambda: "%s returns a pointer to `%s` where a pointer to `%s` is promised" % (s.label(), C.ts(tg[0]), " or ".join(sorted(want))),
                            s.at)
            if n:
                r.count("pointers_returned", n)
        if s.table == "MapIter" and s.slot == "next":
            a = args_of(C, s.ty)
            for x in walk(s.g.local_expr(0)):
                if x[0] == "agg" and x[1][0] == "tuple" and len(x[2]) == 2:
                    for i, w in ((0, a[0]), (1, a[1])):
                        tg = s.tagged(x[2][i])
                        if tg is None:
                            continue
                        r.count("pointers_returned")
                        r.check(C.ts(tg[0]) == C.ts(w), key(C, s, "returned", str(i)),
                                lambda: "%s yields a pointer to `%s` as %s, which is `%s`" % (s.label(), C.ts(tg[0]), ["key", "value"][i], C.ts(w)),
                                s.at)
    r.floor("typed_views", 3000)
    r.floor("pointers_handed_on", 400)
    r.floor("pointers_returned", 150)


def size_of(C, s):
    return C.f(C.f(s.sh, "layout"), "size") if not isinstance(C.f(C.f(s.sh, "layout"), "size"), dict) else None


# ---------------------------------------------------------------- C07
OWN = {
    "display": ("core::fmt::Display", ("fmt",)), "debug": ("core::fmt::Debug", ("fmt",)),
    "clone_into": ("core::clone::Clone", ("clone",)), "default_in_place": ("core::default::Default", ("default",)),
    "eq": ("core::cmp::PartialEq", ("eq", "ne")), "partial_ord": ("core::cmp::PartialOrd", ("partial_cmp",)),
    "ord": ("core::cmp::Ord", ("cmp",)), "hash": ("core::hash::Hash", ("hash",)), "parse": ("core::str::traits::FromStr", ("from_str",)),
}
OWN_TEXT = {k: v[0].split("::")[-1] for k, v in OWN.items()}
PARTIAL_ITERATION = ("skip", "take", "rev", "step_by", "skip_while", "take_while", "filter", "filter_map", "map_while", "chunks", "chunks_exact",
                     "windows", "split_at", "split_first", "split_last", "first", "last", "nth", "rchunks", "rsplit")


def kind(C, s):
    d = C.var(C.f(s.sh, "def"))
    if d == "Struct" and C.types[s.ty]["k"] == "tuple":
        return "Tuple"
    return d


def peel(C, ty):
    n = 0
    while n < 10 and C.types[ty]["k"] == "ref":
        ty = C.types[ty]["args"][0]
        n += 1
    return ty


def self_names(C, s):
    out = {C.ts(s.ty)}
    t = C.types[s.ty]
    if t.get("def", "").endswith("macros::Opaque"):
        out.add(C.ts(t["args"][0]))
    # for reference types the peeled self type
    if t["k"] == "ref":
        out.add(C.ts(peel(C, s.ty)))
    return out


def conds(s):
    for fam in s.fams:
        g = fam.g
        for bi in g.reachable():
            t = g.blocks[bi]["t"]
            if t[0] == "switch":
                yield fam, bi, fam.res(g.expr(t[1]))


def mentions(e, pred):
    return any(pred(x) for x in walk(e))


def own_trait(s, r, C):
    """operation of a scalar, smart pointer or declared type: the type's own trait method and nothing else"""
    trait, items = OWN[s.slot]
    T = self_names(C, s)
    evs = [e for e in s.events() if e.trait == trait and e.item in items and e.f.get("self") is not None and C.ts(peel(C, e.f["self"])) in T]
    where = s.at
    if not r.check(bool(evs), key(C, s, "none"), lambda: "%s never asks `%s` for its own %s" % (s.label(), C.ts(s.ty), OWN_TEXT[s.slot]), where):
        return
    blocks = {e.bi for e in evs if e.fam is s.fams[0]}
    if blocks:
        r.check(not s.g.avoiding(blocks), key(C, s, "skipped"),
                lambda: "%s can return without asking `%s` for its own %s" % (s.label(), C.ts(s.ty), OWN_TEXT[s.slot]), where)
    other = [e for e in s.events() if e.trait in vt.VALUE_TRAITS and e not in evs and e.trait != "core::hash::Hasher" and e.f.get("self") is not None
             and C.ts(peel(C, e.f["self"])) in T and any(s.src(a) for a in e.args)]
    for e in other:
        r.bad(key(C, s, "other", e.trait), "%s also runs %s::%s on the value" % (s.label(), e.trait, e.item), e.where())
    for e in evs:
        a = [s.src(x) for x in e.args]
        ok = True
        if s.slot in ("display", "debug", "clone_into"):
            ok = a[0] == {0} and (s.slot == "clone_into" or a[1] == {1})
        elif s.slot == "eq":
            ok = a in ([{0}, {1}], [{1}, {0}])
        elif s.slot in ("ord", "partial_ord"):
            ok = a == [{0}, {1}]
        elif s.slot == "hash":
            ok = a[0] == {0} and a[1] <= {1, 2} and bool(a[1])
        elif s.slot == "parse":
            ok = a == [{0}]
        r.check(ok, key(C, s, "args"), lambda: "%s calls %s::%s on the wrong arguments (they come from parameters %s)" % (
            s.label(), e.trait, e.item, a), e.where(), "%s calls %s" % (s.label(), e.name))
    ret = s.g.local_expr(0)
    if s.slot in ("display", "debug", "eq", "ord", "partial_ord"):
        want = {e.bi for e in evs}

        def is_call(x):
            return x[0] == "call" and x[3] in want
        wrapped = [x for x in walk(ret) if x[0] == "call" and not is_call(x) and any(is_call(y) for a in x[2] for y in walk(a))
                   and x[1] is not None and vt.fname(x[1]).split("::")[-1] in ("reverse", "not", "then", "then_with", "is_eq", "is_ne", "is_lt", "is_gt")]
        neg = ret[0] == "un" and ret[1] == "Not"
        ne = all(e.item == "ne" for e in evs)
        if s.slot == "eq":
            direct = is_call(ret) or (neg and is_call(ret[2]))
            if direct:
                r.check(neg == ne, key(C, s, "negated"), lambda: "%s answers the opposite of the type's own equality" % s.label(), where)
            else:
                by_cond = any(mentions(c, is_call) for _, _, c in conds(s))
                if by_cond and len(evs) == 1:
                    e = evs[0]
                    if e.fam is s.fams[0] and e.g.blocks[e.bi]["t"][4] is not None:
                        d = e.g.blocks[e.bi]["t"][3]
                        nxt = e.g.blocks[e.bi]["t"][4]
                        same, diff = (0, 1) if ne else (1, 0)
                        o0, o1 = e.g.outcomes(nxt, {d[0]: diff}), e.g.outcomes(nxt, {d[0]: same})
                        r.check(o0 <= {0, None} and o1 <= {1, None}, key(C, s, "negated"),
                                lambda: "%s does not answer what the type's own equality answers" % s.label(), where)
                else:
                    r.check(mentions(ret, is_call) or by_cond, key(C, s, "ignored"), lambda: "%s ignores the answer of the type's own equality" % s.label(), where)
        else:
            used = mentions(ret, is_call) or any(mentions(c, is_call) for _, _, c in conds(s))
            r.check(used, key(C, s, "ignored"), lambda: "%s ignores the answer of the type's own %s" % (s.label(), OWN_TEXT[s.slot]), where)
            r.check(not wrapped, key(C, s, "changed"), lambda: "%s changes the answer of the type's own %s (%s)" % (
                s.label(), OWN_TEXT[s.slot], vt.fname(wrapped[0][1])), where)
    if s.slot in ("clone_into", "default_in_place", "parse"):
        want = {e.bi for e in evs}
        writes = [e for e in s.events() if e.name.endswith("ptr::write") and (s.origin(e.args[0]) or (None,))[0] == {"clone_into": 1, "default_in_place": 0, "parse": 1}[s.slot]]
        for w in writes:
            r.check(mentions(w.args[1], lambda x: x[0] == "call" and x[3] in want), key(C, s, "stored"),
                    lambda: "%s stores something other than what the type's own %s produced" % (s.label(), OWN_TEXT[s.slot]), w.where())


def elem_shapes(C, s):
    """names of the types whose operations a container's operation must consult"""
    a = args_of(C, s.ty)
    k = kind(C, s)
    if k in ("List", "Array", "Slice", "Option"):
        return [C.ts(a[0])]
    if k == "Map":
        if s.slot == "eq":
            return [C.ts(a[1])]
        return [C.ts(a[0]), C.ts(a[1])]
    if k == "Tuple":
        return [C.ts(x) for x in a]
    return []


def container(s, r, C):
    k = kind(C, s)
    slot = s.slot
    where = s.at
    a = args_of(C, s.ty)
    calls = []
    for ev in s.events():
        if ev.fe is not None:
            es = s.elem_slot(ev.fe)
            if es is not None:
                calls.append((ev, C.id_type(es[0]), es[1]))
    need = elem_shapes(C, s)
    # same-named operation
    for ev, t, sl in calls:
        r.count("element_operations")
        r.check(sl == slot, key(C, s, "elem", sl), lambda: "%s runs the %s operation of its element `%s`" % (s.label(), sl, C.ts(t) if t is not None else "?"),
                ev.where(), "%s asks the %s of `%s`" % (s.label(), sl, C.ts(t) if t is not None else "?"))
    if slot == "default_in_place" and k != "Array":
        own_trait(s, r, C) if any(e.trait == OWN[slot][0] for e in s.events()) else None
        return
    if slot in ("clone_into", "default_in_place") and k == "Slice":
        return
    if slot == "default_in_place" and k == "Array" and C.types[s.ty].get("len") == 0:
        return
    got = [C.ts(t) for _, t, sl in calls if t is not None and sl == slot]
    # direct use of the element's own trait counts as well
    tr = OWN.get(slot)
    if tr:
        for e in s.events():
            if e.trait == tr[0] and e.f.get("self") is not None:
                got.append(C.ts(peel(C, e.f["self"])))
    for n in sorted(set(need)):
        r.check(got.count(n) >= (need.count(n) if k == "Tuple" else 1) or (k == "Tuple" and got and in_loop(s)), key(C, s, "missing", n),
                lambda: "%s does not ask every part: `%s` is asked %d times where %d parts have that type" % (s.label(), n, got.count(n), need.count(n)), where)
    # fields of tuples: each position once, the same position on both sides
    if k == "Tuple" and slot in ("debug", "eq"):
        seen = []
        for ev, t, sl in calls:
            pos = []
            for i in ((0, 1) if slot == "eq" else (0,)):
                o = s.origin(ev.args[i]) if i < len(ev.args) else None
                f = [x[1] for x in (o[1] if o else ()) if isinstance(x, tuple) and x[0] == "f"]
                pos.append((o[0] if o else None, f[0] if f else None))
            if any(p[1] is None for p in pos):
                continue
            seen.append(pos[0][1])
            if slot == "eq":
                r.check(pos[0][1] == pos[1][1] and {pos[0][0], pos[1][0]} == {0, 1}, key(C, s, "pos", str(pos[0][1])),
                        lambda: "%s compares field %s of one side with field %s of the other (sides %s, %s)" % (
                            s.label(), pos[0][1], pos[1][1], pos[0][0], pos[1][0]), ev.where())
        if len(seen) == len(calls):
            r.check(sorted(seen) == list(range(len(a))), key(C, s, "positions"), lambda: "%s visits the fields %s, not each of the %d fields once" % (
                s.label(), seen, len(a)), where)
    # sides
    if slot in ("ord", "partial_ord", "eq"):
        for ev, t, sl in calls:
            x, y = s.src(ev.args[0]), s.src(ev.args[1])
            if slot == "eq":
                r.check(not (x == y and len(x) == 1), key(C, s, "sides"), lambda: "%s compares one side with itself" % s.label(), ev.where())
            else:
                r.check(not (x == {1} and 0 not in x and y == {0}) and not (x == y and len(x) == 1), key(C, s, "sides"),
                        lambda: "%s compares its elements with the sides in the wrong order" % s.label(), ev.where())
        for fam in s.fams:
            for x in walk(fam.res(fam.g.local_expr(0))):
                if x[0] == "call" and vt.fname(x[1]).split("::")[-1] == "reverse":
                    r.bad(key(C, s, "reversed"), "%s reverses an ordering" % s.label(), where)
    # lengths
    if slot in ("eq", "ord", "partial_ord") and k in ("List", "Slice", "Map"):
        zipped = any(e.item == "zip" or e.name.endswith("iter::zip") for e in s.events())
        keyed = any(e.item in ("get", "contains_key", "get_key_value") and e.name.startswith(("std::collections", "alloc::collections")) for e in s.events())
        if zipped or keyed:
            r.count("length_comparisons")
            if slot == "eq":
                u = unequal_lengths(s)
                if r.check(u is not None, key(C, s, "length"), lambda: "%s pairs the elements up without comparing the two lengths" % s.label(), where):
                    for what, o in zip(("longer", "shorter"), u):
                        r.check(o <= {0}, key(C, s, "length", what), lambda: "%s can answer `equal` when the left side is %s" % (s.label(), what), where,
                                "%s answers `not equal` when the left side is %s" % (s.label(), what))
            else:
                r.check(lengths_ordered(s), key(C, s, "length"), lambda: "%s does not order by length what is equal up to the shorter side" % s.label(), where)
    # whole container
    for e in s.events():
        it = e.name.split("::")[-1]
        if it in PARTIAL_ITERATION and e.args and s.src(e.args[0]) & {0, 1} and (e.trait.startswith("core::iter") or "slice" in e.name):
            r.bad(key(C, s, "partial", it), "%s visits only part of the container (%s)" % (s.label(), e.name), e.where())
    # what an unequal element means
    if slot == "eq":
        for ev, t, sl in calls:
            if sl != "eq":
                continue
            g = ev.g
            tm = g.blocks[ev.bi]["t"]
            if tm[4] is None or tm[3][1] != []:
                continue
            if ev.fam is not s.fams[0]:
                comb = consumer(s, ev.fam)
                if comb not in ("all",):
                    continue
            o0 = g.outcomes(tm[4], {tm[3][0]: 0})
            o1 = g.outcomes(tm[4], {tm[3][0]: 1})
            r.check(o0 <= {0}, key(C, s, "unequal"), lambda: "%s can answer `equal` although an element is not" % s.label(), ev.where())
            r.check(1 in o1 or None in o1 or not o1, key(C, s, "equal"), lambda: "%s never answers `equal`" % s.label(), ev.where())
            if ev.fam is s.fams[0] and o0 and not o0 - {0}:
                pass


def in_loop(s):
    g = s.g
    for bi in g.reachable():
        t = g.blocks[bi]["t"]
        if t[0] == "call" and t[4] is not None and not g.avoiding(set(), t[4], {bi}) is False:
            return True
    return False


def consumer(s, fam):
    """name of the std function a closure graph is given to"""
    for e in (fam.sub or {}).values():
        if e[0] == "item":
            return vt.fname(e[1][1]).split("::")[-1]
    return None


def is_len(x):
    x = strip(x)
    return (x[0] == "call" and vt.fname(x[1]).split("::")[-1] == "len" and len(x[2]) == 1) or (x[0] == "un" and x[1] == "PtrMetadata")


def strip(e):
    while e[0] in ("cast", "ref", "*"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def unequal_lengths(s):
    """values the equality can return when the left side is longer / shorter than the right; None = lengths never compared"""
    g = s.g
    used = []

    def atom(e):
        if is_len(e):
            x = s.src(e)
            if x == {0}:
                return 0
            if x == {1}:
                return 1
        return None

    def cmp(e, sign):
        """truth of a comparison when sign(len(left) - len(right)) is `sign`"""
        e = strip(e)
        if e[0] == "un" and e[1] == "Not":
            v = cmp(e[2], sign)
            return None if v is None else 1 - v
        op = None
        if e[0] == "bin":
            op, x, y = e[1], e[2], e[3]
        elif e[0] == "call" and len(e[2]) == 2:
            op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(vt.fname(e[1]).split("::")[-1])
            x, y = e[2]
        if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return None
        x, y = atom(x), atom(y)
        if {x, y} != {0, 1}:
            return None
        used.append(e)
        d = sign if x == 0 else -sign
        return int({"Eq": d == 0, "Ne": d != 0, "Lt": d < 0, "Le": d <= 0, "Gt": d > 0, "Ge": d >= 0}[op])
    out = []
    for sign in (1, -1):
        def hook(b, rv, sign=sign):
            if rv[0] in ("bin", "un"):
                return cmp(g._rv_expr((b, 0, rv), 0, ()), sign)
            if rv[0] == "call":
                return cmp(("call", g.fnval(rv[1]) or {}, [g.expr(a) for a in rv[1][2]], b), sign)
            return None
        out.append({x for _, x in g.paths({}, hook=hook)})
    return out if used else None


def lengths_ordered(s):
    """is a comparison of the two lengths, left first, part of the ordering?"""
    for fam in s.fams:
        g = fam.g
        for bi in g.reachable():
            for st in g.blocks[bi]["s"]:
                if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Lt", "Le", "Gt", "Ge", "Cmp"):
                    x, y = fam.res(g.expr(st[2][2])), fam.res(g.expr(st[2][3]))
                    if is_len(x) and is_len(y) and {frozenset(s.src(x)), frozenset(s.src(y))} == {frozenset({0}), frozenset({1})}:
                        return True
    for e in s.events():
        if e.trait in ("core::cmp::PartialOrd", "core::cmp::Ord") and len(e.args) == 2 and is_len(e.args[0]) and is_len(e.args[1]):
            if (s.src(e.args[0]), s.src(e.args[1])) == ({0}, {1}):
                return True
    return False


def c07(fx, r):
    C, L = slots(fx, r)
    r.rule("an operation of a scalar, smart pointer or declared type runs exactly that type's own trait method, on its own arguments in order, on every path, "
           "and returns or stores its result; an operation of a container runs the same-named operation of each of its parts, side by side in order, over the "
           "whole container, comparing lengths where it pairs elements up")
    for s in L:
        if s.table != "value" or s.slot not in OWN:
            continue
        k = kind(C, s)
        r.count("operations")
        if k in ("Scalar", "SmartPointer", "Enum", "Struct"):
            own_trait(s, r, C)
        elif k == "Option" and s.slot not in ("debug", "parse"):
            own_trait(s, r, C)
        else:
            container(s, r, C)
    r.floor("operations", 1100)
    r.floor("element_operations", 800)
    r.floor("length_comparisons", 40)
