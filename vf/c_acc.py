"""C09: how the tables reach elements: indices, bounds, keys, iteration."""
from . import vt
from .c_shapes import corpus
from .c_vtab import slots, key, args_of, PARTIAL_ITERATION, RETURNS, size_of
from .flow import walk

INF = 10 ** 9


def strip(e):
    while e[0] in ("cast", "ref", "*") and e[0] != "p":
        e = e[2] if e[0] == "cast" else e[1]
    return e


class Idx:
    """index parameter and length of a list-like table function"""

    def __init__(self, C, s):
        self.s, self.C = s, C
        t = C.types[s.ty]
        self.n = t.get("len") if t["k"] == "array" else None

    def is_idx(self, e):
        e = strip(e)
        return self.s.param(e) == 1 or (e[0] == "." and e[1][0] == "bin" and e[2] == 0 and False)

    def is_len(self, e):
        e = strip(e)
        if e[0] == "call" and vt.fname(e[1]).split("::")[-1] == "len":
            return bool(e[2]) and self.s.src(e[2][0]) == {0}
        if e[0] == "un" and e[1] == "PtrMetadata":
            return self.s.src(e[2]) == {0}
        return False

    def linear(self, e):
        """(coefficient of index, coefficient of length, constant) or None"""
        e = strip(e)
        if e[0] == "." and e[2] == 0 and e[1][0] == "bin":
            e = ("bin", e[1][1].replace("WithOverflow", ""), e[1][2], e[1][3])
        if self.is_idx(e):
            return (1, 0, 0)
        if self.is_len(e):
            return (0, 1, 0)
        if e[0] == "k":
            b = e[1].get("bits")
            if b is None:
                v = e[1].get("val")
                if not isinstance(v, int) or isinstance(v, bool):
                    return None
                b = v
            b = int(b)
            if self.n is not None and b == self.n:
                return (0, 1, 0)
            return (0, 0, b)
        if e[0] == "bin" and e[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            a, b = self.linear(e[2]), self.linear(e[3])
            if a is None or b is None:
                return None
            k = 1 if e[1].startswith("Add") else -1
            return tuple(x + k * y for x, y in zip(a, b))
        return None

    def decide(self, cond, lo, hi):
        """truth of a branch condition when lo <= index - length <= hi: 0, 1 or None"""
        e = strip(cond)
        if e[0] == "un" and e[1] == "Not":
            v = self.decide(e[2], lo, hi)
            return None if v is None else 1 - v
        if e[0] == "call" and len(e[2]) == 2:
            m = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "eq": "Eq", "ne": "Ne"}.get(vt.fname(e[1]).split("::")[-1])
            if m:
                e = ("bin", m, e[2][0], e[2][1])
        if e[0] == "call" and vt.fname(e[1]).split("::")[-1] == "contains" and len(e[2]) == 2:
            rg = strip(e[2][0])
            if rg[0] == "agg" and rg[1][1].endswith("ops::range::Range") and len(rg[2]) == 2 and self.linear(rg[2][0]) == (0, 0, 0) and self.is_idx(e[2][1]):
                e = ("bin", "Lt", e[2][1], rg[2][1])
        if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return None
        a, b = self.linear(e[2]), self.linear(e[3])
        if a is None or b is None:
            return None
        ci, cl, k = (x - y for x, y in zip(a, b))
        op = e[1]
        if (ci, cl) == (-1, 1):
            ci, cl, k = 1, -1, -k
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if (ci, cl) != (1, -1):
            return None
        l, h = lo + k, hi + k
        t = {"Lt": (h < 0, l >= 0), "Le": (h <= 0, l > 0), "Gt": (l > 0, h <= 0), "Ge": (l >= 0, h < 0),
             "Eq": (l == h == 0, l > 0 or h < 0), "Ne": (l > 0 or h < 0, l == h == 0)}[op]
        return 1 if t[0] else 0 if t[1] else None

    def reach(self, fam, lo, hi):
        """blocks reachable when lo <= index - length <= hi"""
        g = fam.g
        seen, todo = set(), [g.entry]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            t = g.blocks[b]["t"]
            if t[0] == "switch":
                v = self.decide(fam.res(g.expr(t[1])), lo, hi)
                if v is not None:
                    nx = [x for w, x in t[2] if int(w) == v] or [t[3]]
                    todo += nx
                    continue
            if t[0] == "assert":
                v = self.decide(fam.res(g.expr(t[1])), lo, hi)
                if v is not None and v != int(bool(t[2])):
                    continue
            todo += g.succs(b)
        return seen


def items(C, s, r):
    where = s.at
    root = s.fams[0]
    I = Idx(C, s)
    a = args_of(C, s.ty)
    et = C.types[a[0]]
    raw, safe = [], []
    for e in s.events():
        it = e.name.split("::")[-1]
        if not e.args:
            continue
        if "ptr" in e.name and it in ("add", "offset", "wrapping_add", "byte_add", "wrapping_offset") and s.base(e.args[0]) == {0}:
            raw.append((e, it))
        elif it in ("get_unchecked", "get_unchecked_mut") and s.src(e.args[0]) == {0}:
            raw.append((e, it))
        elif it in ("index", "index_mut", "get", "nth", "get_mut") and s.src(e.args[0]) == {0} and len(e.args) == 2:
            safe.append((e, it))
    for fam in s.fams:
        for x in walk(fam.res(fam.g.local_expr(0))):
            if x[0] == "idx":
                safe.append((None, x))
    r.check(bool(raw or safe), key(C, s, "index"), lambda: "%s does not address an element by the index it is given" % s.label(), where)
    for e, it in raw:
        r.count("element_addresses")
        off = e.args[1]
        pt = pointee(C, s, e)
        lin = I.linear(off)
        o = strip(off)
        if o[0] == "." and o[1][0] == "bin":
            o = ("bin", o[1][1].replace("WithOverflow", ""), o[1][2], o[1][3])
        ops = None
        if o[0] == "bin" and o[1].startswith("Mul"):
            ops = [o[2], o[3]]
        elif o[0] == "call" and vt.fname(o[1]).split("::")[-1] in ("wrapping_mul", "unchecked_mul", "saturating_mul"):
            ops = o[2]
        if ops is not None and (pt is not None and pt["s"] == "u8" or it == "byte_add"):
            ok = any(I.linear(x) == (1, 0, 0) for x in ops)
            n = [number(x) for x in ops if I.linear(x) != (1, 0, 0)]
            w = stride(C, a[0])
            if n and n[0] is not None and w is not None:
                ok = ok and n[0] == w
            r.check(ok, key(C, s, "offset"), lambda: "%s addresses bytes at an offset that is not index times element size" % s.label(), e.where())
        else:
            same = pt is None or pt["s"] == et["s"] and it != "byte_add" or it.startswith("get_")
            r.check(lin == (1, 0, 0) and same, key(C, s, "offset"), lambda: "%s addresses an element other than the one asked for" % s.label(), e.where(),
                    "%s addresses element `index`" % s.label())
        if e.fam is root:
            r.check(e.bi not in I.reach(root, 0, 0), key(C, s, "bound"), lambda: "%s can address the element one past the end" % s.label(), e.where(),
                    "%s refuses an index equal to the length" % s.label())
            r.check(e.bi not in I.reach(root, 1, INF), key(C, s, "bound", "far"), lambda: "%s can address elements beyond the end" % s.label(), e.where())
    for e, it in safe:
        if e is None:
            r.count("element_addresses")
            r.check(I.linear(it[2]) == (1, 0, 0), key(C, s, "offset"), lambda: "%s addresses an element other than the one asked for" % s.label(), where)
        else:
            r.count("element_addresses")
            r.check(I.linear(e.args[1]) == (1, 0, 0), key(C, s, "offset"), lambda: "%s addresses an element other than the one asked for" % s.label(), e.where())
    # every valid index is answered
    for lo, hi, what in ((-1, -1, "the last element"), (-INF, -2, "elements before the last")):
        got = I.reach(root, lo, hi)
        r.check(bool(got & set(s.g.rets)), key(C, s, "refused", str(hi)), lambda: "%s refuses %s" % (s.label(), what), where)
        if raw and all(e.fam is root for e, _ in raw) and not safe:
            r.check(any(e.bi in got for e, _ in raw), key(C, s, "refused", str(hi)), lambda: "%s does not reach %s" % (s.label(), what), where)


def number(e):
    e = strip(e)
    if e[0] == "k":
        v = e[1].get("bits", e[1].get("val"))
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            return int(v)
    return None


def stride(C, ty):
    n = C.ts(ty)
    for e in C.entries:
        if C.ts(e["truth"]["ty"]) == n:
            return e["truth"].get("size")
    return None


def pointee(C, s, e):
    a = e.f.get("rargs") or e.f.get("args") or []
    a = [x for x in a if isinstance(x, int)]
    return C.types[a[0]] if a else None


def length(C, s, r):
    where = s.at
    r.count("lengths")
    I = Idx(C, s)
    e = s.g.local_expr(0)
    e = s.fams[0].res(e)
    r.check(I.linear(e) == (0, 1, 0), key(C, s, "len"), lambda: "%s does not answer the container's own length" % s.label(), where,
            "%s answers the container's length" % s.label())


LOOKUP = ("get", "contains_key", "get_key_value", "get_mut", "index", "range", "raw_entry", "find")


def lookups(s):
    return [e for e in s.events() if e.item in LOOKUP and len(e.args) == 2 and s.src(e.args[0]) == {0}]


def map_lookup(C, s, r):
    where = s.at
    r.count("lookups")
    L = lookups(s)
    if not r.check(bool(L), key(C, s, "lookup"), lambda: "%s never looks its key up in the map" % s.label(), where):
        return
    for e in L:
        k = e.args[1]
        r.check(s.src(k) == {1}, key(C, s, "key"), lambda: "%s looks up something other than the key it is given" % s.label(), e.where(),
                "%s looks up the key it is given" % s.label())
    for e in s.events():
        if e.item in ("keys", "values", "iter") and e.args and s.src(e.args[0]) == {0}:
            r.bad(key(C, s, "scan"), "%s scans the map instead of looking the key up" % s.label(), e.where())
    e = L[0]
    t = e.g.blocks[e.bi]["t"]
    if len(L) != 1 or e.fam is not s.fams[0] or t[4] is None or t[3][1] != []:
        return
    d = t[3][0]
    g = e.g
    if s.slot == "contains_key_fn":
        if e.item == "contains_key":
            ret = s.fams[0].res(g.local_expr(0))
            if strip(ret)[0] == "un":
                r.bad(key(C, s, "answer"), "%s answers the opposite of the lookup" % s.label(), where)
                return
            if strip(ret)[0] == "call" and strip(ret)[3] == e.bi:
                return
            o1, o0 = g.outcomes(t[4], {d: 1}), g.outcomes(t[4], {d: 0})
        else:
            o1, o0 = g.outcomes(t[4], {d: ("v", "Some", 1)}), g.outcomes(t[4], {d: ("v", "None", 0)})
        if not (None in o1 and None in o0):
            r.check(o1 <= {1, None} and o0 <= {0, None}, key(C, s, "answer"), lambda: "%s does not answer what the lookup found" % s.label(), where)
    else:
        if e.item == "contains_key":
            o1, o0 = g.outcomes(t[4], {d: 1}), g.outcomes(t[4], {d: 0})
        else:
            o1, o0 = g.outcomes(t[4], {d: ("v", "Some", 1)}), g.outcomes(t[4], {d: ("v", "None", 0)})

        def names(o):
            return {x[1] if isinstance(x, tuple) else x for x in o}
        r.check(names(o1) <= {"Some"}, key(C, s, "answer", "Some"), lambda: "%s can answer None for a key that is there" % s.label(), where,
                "%s answers Some for a key that is there" % s.label())
        r.check(names(o0) <= {"None"}, key(C, s, "answer", "None"), lambda: "%s can answer Some for a key that is not there" % s.label(), where)
        # what it returns is what the lookup found
        for x in walk(g.local_expr(0)):
            if x[0] == "agg" and x[1][0] == "adt" and x[1][1] in vt.PTRS:
                r.check(any(y[0] == "call" and y[3] == e.bi for y in walk(x)), key(C, s, "found"),
                        lambda: "%s returns a pointer to something other than what the lookup found" % s.label(), where)


REVERSING = ("pop_back", "pop", "next_back", "rev", "reverse", "last_key_value", "pop_last", "push_front", "nth_back", "rfold", "rfind")


def iteration(C, s, nxt, r):
    where = s.at
    r.count("iterations")
    whole = [e for e in s.events() if e.item in ("keys", "iter", "into_iter", "iter_mut", "clone") and e.args and s.src(e.args[0]) == {0}]
    r.check(bool(whole), key(C, s, "whole"), lambda: "%s does not start from the whole map" % s.label(), where, "%s starts from all entries" % s.label())
    rev = 0
    for q in (s, nxt):
        if q is None:
            continue
        for e in q.events():
            it = e.name.split("::")[-1]
            if it in REVERSING and e.name.startswith(("alloc::", "std::", "core::")):
                rev += 1
            if (it in PARTIAL_ITERATION and it != "rev" and e.trait.startswith("core::iter")) or it in ("truncate", "split_off", "drain", "retain", "dedup", "remove"):
                r.bad(key(C, q, "partial", it), "%s leaves entries out (%s)" % (q.label(), it), e.where())
    r.check(rev % 2 == 0, key(C, s, "order"), lambda: "iteration of %s runs against the map's own order" % C.ts(s.ty), where)
    if nxt is None:
        return
    n = 0
    for fam in nxt.fams:
        for x in walk(fam.res(fam.g.local_expr(0))):
            if x[0] == "agg" and x[1][0] == "tuple" and len(x[2]) == 2:
                n += 1
                kc = {y[3] for y in walk(x[2][0]) if y[0] == "call"}
                kn = {y[3] for y in walk(x[2][0]) if y[0] == "call" and vt.fname(y[1]).split("::")[-1] in ("next", "pop_front", "pop", "pop_back", "next_back", "get", "index", "remove")}
                vc = {y[3] for y in walk(x[2][1]) if y[0] == "call"}
                r.check(bool((kn or kc) & vc), key(C, nxt, "pair"), lambda: "%s pairs a key with the value of another entry" % nxt.label(), nxt.at,
                        "%s yields the key with its own value" % nxt.label())
    if n:
        r.count("pairs", n)
    # the end is reported only when nothing is left
    g = nxt.g
    for e in nxt.events():
        if e.fam is nxt.fams[0] and e.item in ("next", "pop_front", "pop", "pop_back", "next_back"):
            t = g.blocks[e.bi]["t"]
            if t[4] is None or t[3][1] != []:
                continue
            o = g.outcomes(t[4], {t[3][0]: ("v", "None", 0)})
            r.check({x[1] if isinstance(x, tuple) else x for x in o} <= {"None"}, key(C, nxt, "end"),
                    lambda: "%s can yield an entry after the last" % nxt.label(), e.where())


def option(C, s, r):
    """is_some / get_value"""
    where = s.at
    g = s.g
    r.count("options")

    def reach(variant):
        env, out = {}, set()
        seen, todo = set(), [(g.entry, ())]
        while todo:
            b, cst = todo.pop()
            if (b, cst) in seen:
                continue
            seen.add((b, cst))
            env = dict(cst)
            for st in g.blocks[b]["s"]:
                if st[0] == "=" and st[1][1] == []:
                    v = None
                    rv = st[2]
                    if rv[0] == "discr" and s.src(g._rv_expr((b, 0, rv), 0, ())) == {0}:
                        v = variant
                    else:
                        v = g._cprop(rv, env)
                    if v is None:
                        env.pop(st[1][0], None)
                    else:
                        env[st[1][0]] = v
            t = g.blocks[b]["t"]
            if t[0] == "ret":
                out.add(env.get(0))
                continue
            if t[0] == "call":
                env.pop(t[3][0], None)
            nx = g.succs(b)
            if t[0] == "switch":
                v = g._cop(t[1], env)
                if isinstance(v, int):
                    nx = [x for w, x in t[2] if int(w) == v] or [t[3]]
            todo += [(x, tuple(sorted(env.items(), key=str))) for x in nx if x is not None]
        return {x[1] if isinstance(x, tuple) else x for x in out}
    yes, no = reach(1), reach(0)
    w = ({1}, {0}) if s.slot == "is_some_fn" else ({"Some"}, {"None"})
    if not (None in yes or None in no):
        r.count("options_decided")
    r.check(yes <= w[0] | {None} and no <= w[1] | {None} and not (None in yes and None in no), key(C, s, "answer"),
            lambda: "%s answers %s for Some and %s for None" % (s.label(), sorted(map(str, yes)), sorted(map(str, no))), where, "%s tells Some from None" % s.label())
    if s.slot == "get_value_fn":
        for x in walk(g.local_expr(0)):
            if x[0] == "agg" and x[1][0] == "adt" and x[1][1] in vt.PTRS:
                o = s.origin(x)
                if o is not None:
                    r.check(o[0] == 0 and any(isinstance(p, tuple) and p[0] == "f" for p in o[1]), key(C, s, "payload"),
                            lambda: "%s does not point at the option's own payload" % s.label(), where)


def c09(fx, r):
    C, L = slots(fx, r)
    r.rule("an element access addresses exactly element `index` of its own container and is unreachable for index >= length and reachable below it; a length is the "
           "container's own; a lookup uses the given key and answers what it found; iteration starts from every entry, keeps the map's order and "
           "yields each key with its own value; an option answers Some exactly for Some with its own payload; returned pointers point into the value asked")
    nexts = {C.ts(s.ty): s for s in L if s.table == "MapIter" and s.slot == "next"}
    for s in L:
        if s.table in ("List", "Slice", "Array") and s.slot == "get_item_ptr":
            items(C, s, r)
        elif s.slot in ("len", "len_fn"):
            length(C, s, r)
        elif s.slot in ("contains_key_fn", "get_value_ptr_fn"):
            map_lookup(C, s, r)
        elif s.slot == "iter_fn":
            iteration(C, s, nexts.get(C.ts(s.ty)), r)
        elif s.slot in ("is_some_fn", "get_value_fn") and s.table == "Option":
            option(C, s, r)
        if (s.table, s.slot) in RETURNS:
            for fam in s.fams:
                for x in walk(fam.res(fam.g.local_expr(0))):
                    if x[0] == "agg" and x[1][0] == "adt" and x[1][1] in vt.PTRS:
                        r.count("returned_pointers")
                        b = s.base(x)
                        r.check(b <= {0}, key(C, s, "into"), lambda: "%s returns a pointer that does not lead into its own value" % s.label(), s.at)
    r.floor("element_addresses", 80)
    r.floor("lengths", 100)
    r.floor("lookups", 80)
    r.floor("iterations", 40)
    r.floor("options_decided", 40)
