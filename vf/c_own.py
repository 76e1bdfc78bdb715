"""C08: who owns what across the functions behind the tables."""
from . import vt
from .c_shapes import corpus
from .c_vtab import slots, key, args_of
from .flow import walk

# table -> slot -> {parameter: what happens to the value behind it}
#   look     only looked at           fill      uninitialised, filled exactly once
#   consume  ended exactly once       take      moved out exactly once
#   edit     stays valid: what is put over it ends what was there
#   fill?    filled exactly when the answer is Ok/Some
SPEC = {
    "value": {
        "drop_in_place": {0: "consume"}, "invariants": {0: "look"}, "display": {0: "look"}, "debug": {0: "look"},
        "default_in_place": {0: "fill"}, "clone_into": {0: "look", 1: "fill"}, "eq": {0: "look", 1: "look"},
        "partial_ord": {0: "look", 1: "look"}, "ord": {0: "look", 1: "look"}, "hash": {0: "look"}, "parse": {1: "fill?"},
    },
    "List": {"init_in_place_with_capacity": {0: "fill"}, "push": {0: "edit", 1: "take"}, "len": {0: "look"}, "get_item_ptr": {0: "look"}},
    "Map": {"init_in_place_with_capacity_fn": {0: "fill"}, "insert_fn": {0: "edit", 1: "take", 2: "take"}, "len_fn": {0: "look"},
            "contains_key_fn": {0: "look", 1: "look"}, "get_value_ptr_fn": {0: "look", 1: "look"}, "iter_fn": {0: "look"}},
    "MapIter": {"next": {0: "edit"}, "dealloc": {0: "consume"}},
    "Array": {"get_item_ptr": {0: "look"}},
    "Slice": {"len": {0: "look"}, "get_item_ptr": {0: "look"}},
    "Option": {"is_some_fn": {0: "look"}, "get_value_fn": {0: "look"}, "init_some_fn": {0: "fill", 1: "take"}, "init_none_fn": {0: "fill"},
               "replace_with_fn": {0: "edit", 1: "take?"}},
    "SmartPointer": {"upgrade_into_fn": {0: "look", 1: "fill?"}, "downgrade_into_fn": {0: "look", 1: "fill"}, "borrow_fn": {0: "look"},
                     "new_into_fn": {0: "fill", 1: "take"}},
}
# where the value a filled parameter gets comes from
FROM = {("value", "clone_into"): {0}, ("SmartPointer", "new_into_fn"): {1}, ("Option", "init_some_fn"): {1},
        ("SmartPointer", "upgrade_into_fn"): {0}, ("SmartPointer", "downgrade_into_fn"): {0}, ("value", "parse"): {0}}
# the parameter a table function hands back once it has worked on it
TARGET = {("value", "drop_in_place"): 0, ("value", "clone_into"): 1, ("value", "default_in_place"): 0, ("value", "parse"): 1,
          ("List", "init_in_place_with_capacity"): 0, ("Map", "init_in_place_with_capacity_fn"): 0, ("Option", "init_some_fn"): 0,
          ("Option", "init_none_fn"): 0, ("SmartPointer", "upgrade_into_fn"): 1, ("SmartPointer", "downgrade_into_fn"): 1,
          ("SmartPointer", "new_into_fn"): 0}
OPS = ("drops", "writes", "reads")


def op_of(e):
    """(operation, pointer argument, value argument) of a call, or None"""
    n = e.name
    it = n.split("::")[-1]
    if not e.args:
        return None
    if "ptr" in n:
        if it == "drop_in_place":
            return "drop", e.args[0], None
        if it in ("read", "read_unaligned", "read_volatile"):
            return "read", e.args[0], None
        if it in ("write", "write_unaligned", "write_volatile"):
            return "write", e.args[0], e.args[1]
    if it == "replace" and "mem" in n and len(e.args) > 1:
        return "swap", e.args[0], e.args[1]
    if it == "take" and "mem" in n:
        return "swap", e.args[0], None
    if it == "from_raw" and ("Box" in n or "Arc" in n or "Rc" in n):
        return "read", e.args[0], None
    return None


def may_drop(C, ty):
    """does a value of this type (index) own anything?"""
    t = C.types[ty]
    if t["k"] in ("ref", "ptr", "int", "uint", "bool", "char", "float", "str", "fndef", "fnptr", "never"):
        return False
    return t.get("nd", True)


class Ops:
    """ownership operations on the values behind a table function's parameters"""

    def __init__(self, s):
        self.s = s
        self.ops = []   # (param, path, operation, fam, block, value expr, line)
        self.part = {}  # param -> element operations on parts of it
        for e in s.events():
            if e.fe is not None:
                es = s.elem_slot(e.fe)
                if es and es[1] in ("clone_into", "default_in_place", "parse", "drop_in_place"):
                    i = {"clone_into": 1, "parse": 1}.get(es[1], 0)
                    if i < len(e.args):
                        for p in s.base(e.args[i]):
                            self.part.setdefault(p, []).append((es[1], e))
                continue
            o = op_of(e)
            if o is None:
                continue
            w = s.origin(o[1])
            if w is None:
                src = s.src(o[1])
                if len(src) == 1 and e.name.split("::")[-1] != "from_raw":
                    w = (next(iter(src)), ("?",))
            if w is not None:
                self.ops.append((w[0], w[1], o[0], e.fam, e.bi, o[2], None))
        for fam in s.fams:
            g = fam.g
            for bi in g.reachable():
                b = g.blocks[bi]
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "use" and st[2][1][0] in ("c", "m") and st[1][1] == [] and st[2][1][1][1][-1:] == ["*"] \
                            and isinstance(g.locals[st[1][0]][1], int) and may_drop(s.C, g.locals[st[1][0]][1]):
                        o = self._place(fam, st[2][1][1])
                        if o:
                            self.ops.append((o[0], o[1], "read", fam, bi, None, st[3]))
                    if st[0] == "=" and st[1][1] and "*" in st[1][1]:
                        o = self._place(fam, st[1])
                        if o:
                            v = fam.res(g._rv_expr((bi, 0, st[2]), 0, ()))
                            self.ops.append((o[0], o[1], "assign", fam, bi, v, st[3]))
                    elif st[0] == "copy":
                        d = s.origin(fam.res(g.expr(st[2]))) if len(st) > 2 else None
                        q = s.origin(fam.res(g.expr(st[1])))
                        if d:
                            self.ops.append((d[0], d[1], "write", fam, bi, fam.res(g.expr(st[1])), None))
                        if q:
                            self.ops.append((q[0], q[1], "read", fam, bi, None, None))
                t = b["t"]
                if t[0] == "drop" and "*" in t[1][1]:
                    o = self._place(fam, t[1])
                    if o:
                        self.ops.append((o[0], o[1], "dropplace", fam, bi, None, None))

    def _place(self, fam, pl):
        pr = pl[1]
        i = len(pr) - 1 - pr[::-1].index("*")
        e = fam.res(fam.g.place_expr([pl[0], pr[:i]]))
        o = self.s.origin(e)
        if o is None:
            return None
        rest = tuple(("f", x[1], x[4]) for x in pr[i + 1:] if isinstance(x, list) and x[0] == "f")
        return (o[0], o[1] + rest)

    def of(self, p):
        return [o for o in self.ops if o[0] == p]


def counts(s, ops, want):
    """path counts of (drops, writes, reads) over the root graph; None when something happens inside a closure"""
    marks = {}
    for o in ops:
        if o[3] is not s.fams[0]:
            return None
        l = {"drop": ["d"], "read": ["r"], "write": ["w"], "swap": ["d", "w"], "assign": ["w"], "dropplace": ["d"]}[o[2]]
        marks.setdefault(o[4], []).extend(l)
    out = set()
    for m, ret in s.g.paths(marks):
        if m is None:
            return None
        c = dict(m)
        out.add((c.get("d", 0), c.get("w", 0), c.get("r", 0), ret[1] if isinstance(ret, tuple) and ret[0] == "v" else ret))
    return out


WHAT = {0: "first", 1: "second", 2: "third"}


def c08(fx, r):
    C, L = slots(fx, r)
    r.rule("on every path through every table function: a value to be dropped is ended exactly once, uninitialised memory is filled exactly once "
           "(exactly when the answer says so) and never dropped, an item handed over is moved out exactly once and into the container, a value only "
           "looked at is never moved, overwritten or dropped, what is replaced is ended, nothing is forgotten")
    for s in L:
        spec = SPEC.get(s.table, {}).get(s.slot)
        if spec is None:
            continue
        T = C.ts(s.ty)
        O = Ops(s)
        where = s.at
        a = args_of(C, s.ty)
        for e in s.events():
            if e.name.endswith("mem::forget"):
                r.bad(key(C, s, "forget"), "%s forgets a value, which is then never dropped" % s.label(), e.where())
        for p, role in spec.items():
            r.count("obligations")
            ops = O.of(p)
            if role == "look":
                for o in ops:
                    if o[2] in ("read", "drop", "dropplace") and not drops(C, s, p, a):
                        continue
                    r.bad(key(C, s, "look", o[2]), "%s %s the value its %s parameter only lends it" % (
                        s.label(), {"read": "moves out", "drop": "drops", "dropplace": "drops"}.get(o[2], "overwrites"), WHAT[p]), o[3].g.where(o[4], o[6]))
                for sl, e in O.part.get(p, []):
                    r.bad(key(C, s, "look", sl), "%s runs %s on a part of the value its %s parameter only lends it" % (s.label(), sl, WHAT[p]), e.where())
                continue
            if O.part.get(p):
                # element by element: the parts of an array
                ops = [o for o in ops if o[2] not in ("assign",)]
                r.check(not [o for o in ops if role.startswith("fill") and o[2] in ("drop", "dropplace", "read")], key(C, s, "parts"),
                        lambda: "%s drops or moves parts of memory that holds no value yet" % s.label(), where)
                continue
            cs = counts(s, ops, role)
            if cs is None:
                r.count("undecided_closures")
                continue
            d = drops(C, s, p, a)
            if role == "consume":
                if d:
                    bad = [c for c in cs if c[0] + c[2] != 1]
                    r.check(not bad, key(C, s, "consume"), lambda: "%s can return having ended the value %s" % (
                        s.label(), "more than once" if max(c[0] + c[2] for c in bad) > 1 else "not at all"), where, "%s ends the value once" % s.label())
                    r.check(not [c for c in cs if c[1]], key(C, s, "consume", "w"), lambda: "%s writes to the value it drops" % s.label(), where)
            elif role in ("fill", "fill?"):
                if d:
                    r.check(not [c for c in cs if c[0]], key(C, s, "uninit"), lambda: "%s drops memory that holds no value yet" % s.label(), where)
                    r.check(not [c for c in cs if c[2]], key(C, s, "uninit", "r"), lambda: "%s moves a value out of memory that holds none" % s.label(), where)
                if s.table == "value" and s.slot in ("clone_into", "default_in_place") and empty(C, s.ty):
                    continue
                for c in cs:
                    if role == "fill":
                        r.check(c[1] == 1, key(C, s, "fill"), lambda: "%s can return with the target filled %s" % (s.label(), "twice" if c[1] else "not at all"), where,
                                "%s fills the target once" % s.label())
                    else:
                        good, bad = ("Ok", "Err") if s.table == "value" else ("Some", "None")
                        if c[3] == good:
                            r.check(c[1] == 1, key(C, s, "fill", good), lambda: "%s can answer %s with the target filled %s" % (
                                s.label(), good, "twice" if c[1] else "not at all"), where, "%s fills the target when it answers %s" % (s.label(), good))
                        elif c[3] == bad:
                            r.check(c[1] == 0, key(C, s, "fill", bad), lambda: "%s can answer %s with the target filled (nobody will drop it)" % (s.label(), bad), where)
                        else:
                            r.check(c[1] <= 1, key(C, s, "fill"), lambda: "%s can fill the target twice" % s.label(), where)
                src = FROM.get((s.table, s.slot))
                for o in ops:
                    if o[2] in ("write", "assign") and o[5] is not None and src:
                        got = s.src(o[5])
                        r.check(not got or got == src or "()" == T, key(C, s, "from"), lambda: "%s fills the target from its parameters %s" % (s.label(), sorted(got)),
                                o[3].g.where(o[4], o[6]))
            elif role in ("take", "take?"):
                if d:
                    rd = {c[0] + c[2] for c in cs}
                    if role == "take":
                        r.check(rd == {1}, key(C, s, "take", str(p)), lambda: "%s can return having taken its %s parameter %s" % (
                            s.label(), WHAT[p], "more than once" if max(rd) > 1 else "not at all"), where, "%s takes its %s parameter once" % (s.label(), WHAT[p]))
                    else:
                        r.check(rd == {0, 1} or rd == {1}, key(C, s, "take", str(p)), lambda: "%s %s the value handed to it" % (
                            s.label(), "can take more than once" if max(rd) > 1 else "never takes"), where)
                r.check(not [o for o in ops if o[2] in ("drop", "dropplace")] or not d, key(C, s, "take", "dropped", str(p)),
                        lambda: "%s drops what was handed to it instead of keeping it" % s.label(), where)
            elif role == "edit":
                if d or s.table == "MapIter":
                    bad = [c for c in cs if c[0] + c[2] != c[1]]
                    r.check(not bad, key(C, s, "edit"), lambda: "%s can return having overwritten a value without ending it, or ended one without replacing it" % s.label(), where)
        kept(C, s, O, r)
        tgt = TARGET.get((s.table, s.slot))
        if tgt is not None:
            for x in walk(s.g.local_expr(0)):
                if x[0] == "agg" and x[1][0] == "adt" and x[1][1] in vt.PTRS:
                    o = s.origin(x)
                    if o is not None:
                        r.count("targets_returned")
                        r.check(o == (tgt, ()), key(C, s, "target"), lambda: "%s hands back a pointer to something other than the memory it was given" % s.label(), where)
    r.floor("obligations", 3000)
    r.floor("kept", 120)
    r.floor("targets_returned", 1000)


def drops(C, s, p, a):
    """does the value behind parameter p need dropping?"""
    t = s.ty
    if s.table == "List" and p == 1 or s.table == "Map" and p == 1 or s.table == "Option" and p == 1 or s.slot == "new_into_fn" and p == 1:
        t = a[0] if a else None
    elif s.table == "Map" and p == 2:
        t = a[1] if len(a) > 1 else None
    elif s.table == "MapIter":
        return True
    return may_drop(C, t) if t is not None else True


def empty(C, ty):
    t = C.types[ty]
    return t["k"] == "array" and t.get("len") == 0


def kept(C, s, O, r):
    """what is handed to a container ends up in it, in its place"""
    where = s.at
    root = s.fams[0]

    def moved(e, p):
        return s.src(e) == {p}
    if (s.table, s.slot) == ("List", "push"):
        r.count("kept")
        ok = set()
        for e in s.events():
            if e.fam is root and e.args and s.src(e.args[0]) == {0} and not e.name.startswith("core::ptr"):
                it = e.item
                if it in ("push", "push_back", "extend", "extend_one", "push_within_capacity") and len(e.args) == 2 and moved(e.args[1], 1):
                    ok.add(e.bi)
                elif it == "insert" and len(e.args) == 3 and moved(e.args[2], 1) and \
                        any(x[0] == "call" and vt.fname(x[1]).endswith("::len") for x in walk(e.args[1])):
                    ok.add(e.bi)
                elif it in ("pop", "clear", "truncate", "remove", "swap_remove", "drain", "reverse", "swap", "retain", "dedup", "rotate_left", "rotate_right", "split_off"):
                    r.bad(key(C, s, "kept", it), "%s also runs `%s` on the list" % (s.label(), it), e.where())
        cs = {dict(m).get("p", 0) for m, _ in s.g.paths({b: "p" for b in ok})} if ok else {0}
        r.check(cs == {1}, key(C, s, "kept"), lambda: "%s does not append the item once on every path" % s.label(), where, "%s appends the item" % s.label())
    elif (s.table, s.slot) == ("Map", "insert_fn"):
        r.count("kept")
        ok = set()
        for e in s.events():
            if e.fam is root and e.args and e.item in ("insert", "insert_entry", "insert_unique_unchecked"):
                if len(e.args) == 3 and s.src(e.args[0]) == {0} and moved(e.args[1], 1) and moved(e.args[2], 2):
                    ok.add(e.bi)
                elif len(e.args) == 2 and s.src(e.args[0]) == {0, 1} and moved(e.args[1], 2):
                    ok.add(e.bi)
            elif e.fam is root and e.args and s.src(e.args[0]) == {0} and e.item in ("remove", "clear", "retain", "drain", "remove_entry"):
                r.bad(key(C, s, "kept", e.item), "%s also runs `%s` on the map" % (s.label(), e.item), e.where())
        cs = {dict(m).get("p", 0) for m, _ in s.g.paths({b: "p" for b in ok})} if ok else {0}
        r.check(cs == {1}, key(C, s, "kept"), lambda: "%s does not insert its key with its value once on every path" % s.label(), where,
                "%s inserts the key with the value" % s.label())
    elif s.slot in ("init_in_place_with_capacity", "init_in_place_with_capacity_fn"):
        r.count("kept")
        for o in O.of(0):
            if o[2] in ("write", "assign") and o[5] is not None:
                e = o[5]
                if e[0] == "call":
                    it = vt.fname(e[1]).split("::")[-1]
                    r.check(it.startswith("with_capacity") or it in ("new", "default", "with_hasher", "new_in"), key(C, s, "empty"),
                            lambda: "%s starts the collection from `%s`, not empty" % (s.label(), vt.fname(e[1])), where)
        for e in s.events():
            if e.item in ("push", "insert", "extend", "resize", "set_len") and e.name.startswith(("alloc::", "std::", "hashbrown")):
                r.bad(key(C, s, "empty", e.item), "%s puts something into the collection it starts" % s.label(), e.where())
    elif s.table == "Option" and s.slot in ("init_some_fn", "init_none_fn", "replace_with_fn"):
        r.count("kept")
        for o in O.of(0):
            if o[2] not in ("write", "assign", "swap") or o[5] is None:
                continue
            kinds = {x[1][2] for x in ([o[5]] if o[5][0] != "phi" else o[5][1]) if x[0] == "agg" and x[1][0] == "adt"}
            if s.slot == "init_some_fn":
                r.check("None" not in kinds, key(C, s, "variant"), lambda: "%s can leave None" % s.label(), where)
            elif s.slot == "init_none_fn":
                r.check("Some" not in kinds, key(C, s, "variant"), lambda: "%s can leave Some" % s.label(), where)
            else:
                got = s.src(o[5])
                r.check(0 not in got, key(C, s, "variant"), lambda: "%s puts the old value back" % s.label(), where)
        if s.slot == "replace_with_fn":
            replaced(C, s, O, r, where)


def replaced(C, s, O, r, where):
    """Some given: Some stored; None given: None stored"""
    g = s.g
    sw = None
    for bi in sorted(g.reachable()):
        t = g.blocks[bi]["t"]
        if t[0] == "switch":
            e = g.expr(t[1])
            if e[0] == "discr" and s.params(e) == {1}:
                sw = (bi, t)
                break
    if sw is None:
        return
    r.count("replacements")
    for val, tgt in [(int(v), x) for v, x in sw[1][2]] + [(None, sw[1][3])]:
        if val is None:
            rest = {0, 1} - {int(v) for v, _ in sw[1][2]}
            if len(rest) != 1:
                continue
            val = rest.pop()
        for o in O.of(0):
            if o[2] not in ("write", "assign", "swap") or o[5] is None:
                continue
            if not g.avoiding(set(), tgt, {o[4]}):
                continue
            alts = [o[5]] if o[5][0] != "phi" else o[5][1]
            kinds = {x[1][2] for x in alts if x[0] == "agg" and x[1][0] == "adt"}
            want = "Some" if val == 1 else "None"
            if len(kinds) == len(alts) == 1:
                r.check(kinds == {want}, key(C, s, "replaced", want), lambda: "%s stores %s where %s was given" % (s.label(), kinds, want), where)
