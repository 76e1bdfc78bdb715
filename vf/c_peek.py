"""facet-reflect's reading side: what a Peek pairs, what it compares, what it looks up."""
from . import flow, vt, poly
from .flow import walk
from .vt import fname
from .poly import bare, fld, item_of, strip

PEEK = "facet_reflect::peek::value::Peek"
VIEWS = {"facet_reflect::peek::struct_::PeekStruct": "Struct", "facet_reflect::peek::enum_::PeekEnum": "Enum",
         "facet_reflect::peek::map::PeekMap": "Map", "facet_reflect::peek::list::PeekList": "List",
         "facet_reflect::peek::option::PeekOption": "Option", "facet_reflect::peek::smartptr::PeekSmartPointer": "SmartPointer"}
HEAP = "facet_reflect::wip::heap_value::HeapValue"
_roots = {}


def program(fx):
    if "P" not in _roots:
        _roots["P"] = flow.PolyProgram(fx, ["facet_core", "facet_reflect"])
        _roots["c"] = fx.crate("facet_reflect")
        _roots["r"] = {}
    return _roots["P"], _roots["c"]


def root_of(P, f):
    if f.id not in _roots["r"]:
        _roots["r"][f.id] = poly.Root(P, f, policy, cap=60000)
    return _roots["r"][f.id]


def policy(callee, f):
    """the builder's public operations stay calls: each is decided on its own"""
    if poly.self_ty(callee) == "facet_reflect::wip::Wip" and callee.raw.get("pub"):
        return False
    return vt.policy(callee, f)


def is_reader(f):
    s = poly.self_ty(f) or f.id
    return not f.raw.get("macro") and ("::peek::" in s or "::peek::" in f.id or s == HEAP)


def label(f):
    s = (poly.self_ty(f) or "").split("::")[-1]
    t = poly.trait_of(f)
    return "%s%s%s" % (s + "::" if s else "", t.split("::")[-1] + "::" if t else "", f.raw["item"] or f.id.split("::")[-1])


def aggs(root, adts):
    """(fam, block, adt, {field: expression}, line) of every construction of one of the types"""
    for fam in root.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            for s in g.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in adts:
                    names = s[2][1][3]
                    yield fam, bi, s[2][1][1], {n: fam.res(g.expr(o)) for n, o in zip(names, s[2][2])}, s[3]


def calls(root, pred=None):
    """(fam, block, f or callee expression, args)"""
    for fam in root.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            t = g.blocks[bi]["t"]
            if t[0] == "call":
                f = g.fnval(t) or fam.res(g.expr(t[1]))
                yield fam, bi, f, [fam.res(g.expr(a)) for a in t[2]]


def live(e):
    """components of a value, without those that no execution produces"""
    es = e[1] if e[0] == "phi" else [e]
    out = []
    for x in es:
        y = bare(x)
        while y[0] == "." and y[1][0] not in ("p",):
            y = bare(y[1])
        if y[0] in ("k", "dead", "uninit") and x[0] != "k":
            continue
        out.append(x)
    return out


def data_owner(root, base):
    """canonical value whose `data` (or heap memory) the pointer is: ('peek', X) or ('heap', H)"""
    out = set()
    ex = None
    for b in live(base):
        x = fld(b, "data")
        if x is not None:
            out.add(("peek", root.canon(x)))
            ex = ("peek", x)
            continue
        h = heap_owner(b)
        if h is not None:
            out.add(("heap", root.canon(h)))
            ex = ("heap", h)
            continue
        return None
    return ex if len(out) == 1 else None


def heap_owner(b):
    """H when b is the memory the guard of the HeapValue H holds"""
    b = bare(b)
    if b[0] != "." or b[3] != "ptr":
        return None
    hs = []
    for x in walk(b[1]):
        if x[0] == "." and x[3] == "guard":
            hs.append(bare(x[1]))
    return hs[0] if hs and all(h == hs[0] for h in hs) else None


def shape_owner(e):
    """X when e is X.shape"""
    return fld(e, "shape")


def def_owners(e):
    """expressions O for every O.def / O.shape.def inside e"""
    out = []
    for x in walk(e):
        if x[0] == "." and x[3] == "def":
            o = bare(x[1])
            s = fld(o, "shape")
            out.append(("shape", s) if s is not None else ("view", o))
    return out


def tied(root, e, owner):
    """does e come from the definition of `owner` (a Peek), and of nothing else?"""
    ds = def_owners(e)
    if not ds:
        return False
    v = fld(owner, "value")
    for kind, o in ds:
        if kind == "shape" and root.same(o, owner):
            continue
        if kind == "view" and v is not None and root.same(o, v):
            continue
        return False
    return True


def slot_call(e):
    """(definition D, table path, args) when e is a call through D.vtable"""
    e = bare(e)
    if e[0] != "call" or isinstance(e[1], dict):
        return None
    c = bare(e[1])
    path = []
    while c[0] == "." and c[3] != "vtable":
        path.append(c[3])
        c = bare(c[1])
    if c[0] != ".":
        return None
    return bare(c[1]), ".".join(reversed([p for p in path if p != "0"])), e[2]


def accessor(e, names):
    """(name, D) when e is D.name or (D.name)()"""
    e = bare(e)
    if e[0] == "call" and not e[2] and not isinstance(e[1], dict):
        e = bare(e[1])
    if e[0] == "." and e[3] in names:
        return e[3], bare(e[1])
    return None


SLOT_SHAPES = {"get_item_ptr": "t", "get_value_fn": "t", "get_value_ptr_fn": "v", "borrow_fn": "pointee"}


def pair(root, fam, data, shape):
    """(ok, what) for one (address, shape) pair"""
    base, off = poly.ptr(data)
    T = poly.type_shape(root, shape)
    if T is not None:
        b = base
        if b[0] == "p" and off is None:
            s = root.g.ts(root.g.argl[b[1]])
            if s.replace("'_ ", "") in ("&" + T, "&mut " + T, "*const " + T):
                return True, "a reference to %s with %s's own shape" % (T, T)
        return False, "the address of something that is not a `%s` with `%s`'s shape" % (T, T)
    so = shape_owner(shape)
    if so is not None and accessor(shape, ("shape",)) and bare(shape)[0] != "call":
        o = data_owner(root, base)
        if o and off is None and root.same(o[1], so):
            return True, "a value's own address and shape"
        return False, "one value's shape with another address"
    a = accessor(shape, ("shape", "t", "k", "v", "pointee"))
    if a is None:
        return False, "a shape whose origin is not recognised"
    name, D = a
    if name == "shape":
        if off is None:
            return False, "a field's shape with an address that is not offset to the field"
        F2 = fld(off, "offset")
        if F2 is None or not samefield(root, D, F2):
            return False, "the shape of one field with the offset of another"
        o = data_owner(root, base)
        if not o or o[0] != "peek":
            return False, "a field of an address that is not the value's own"
        if not tied(root, D, o[1]):
            return False, "a field of another definition than the value's"
        return True, "field address and shape of the same field"
    if off is not None:
        return False, "an element's shape with an address that was moved"
    b = bare(base)
    want = None
    if b[0] == "." and b[3] in (None, "0", "1") and b[4] is None:  # key or value of an iteration step
        inner = bare(b[1])
        if inner[0] == "." and inner[4] == "Some":
            inner = bare(inner[1])
        sc = slot_call(inner)
        if sc and sc[1] == "iter_vtable.next":
            want = "kv"[b[2]]
            if name != want:
                return False, "the %s of a map entry with the shape of its %ss" % (("key", "value") if want == "k" else ("value", "key"))
            m = fld(sc[0], "def")
            it = fld(sc[2][0], "iter")
            if not root.same(sc[0], D) or m is None or it is None or fld(m, "map") is None or not root.same(fld(m, "map"), it):
                return False, "an entry of one map's iteration with the shapes of another"
            return True, "map entry with the map's key/value shape"
        return False, "an address whose origin is not recognised"
    if b[0] == "." and b[4] == "Some":
        b = bare(b[1])
    sc = slot_call(b)
    if not sc:
        return False, "an address whose origin is not recognised with an element shape"
    want = SLOT_SHAPES.get(sc[1])
    if want is None or want != name:
        return False, "what `%s` returns with the shape `%s`" % (sc[1], name)
    if not root.same(sc[0], D):
        return False, "an element of one definition with the shape of another"
    o = data_owner(root, poly.ptr(sc[2][0])[0])
    if not o or poly.ptr(sc[2][0])[1] is not None or not tied(root, D, o[1]):
        return False, "`%s` called on another value than the one the definition belongs to" % sc[1]
    return True, "what `%s` returns with the definition's `%s`" % (sc[1], name)


def samefield(root, a, b):
    if root.same(a, b):
        return True
    x, y = poly.elem(root, a), poly.elem(root, b)
    return x is not None and x == y


def c10(fx, r):
    P, c = program(fx)
    r.rule("every Peek built anywhere in facet-reflect pairs an address with the shape of the value there: own data with own shape, "
           "a field's offset with that field's shape, a table function's result with the definition's element shape")
    for f in poly.apis(P, c):
        if f.raw.get("macro") or poly.self_ty(f) == "facet_reflect::wip::Wip":
            continue  # the builder's: C16
        root = root_of(P, f)
        if root.g is None:
            continue
        unsafe = f.raw.get("unsafe")
        for fam, bi, adt, v, line in aggs(root, {PEEK} | set(VIEWS) | {"facet_reflect::peek::map::PeekMapIter", "facet_reflect::peek::list::PeekListIter"}):
            at = fam.g.where(bi, line)
            nm = adt.split("::")[-1]
            k = "%s:%s" % (label(f), nm)
            if unsafe and all(poly.bare(x)[0] == "p" or all(y[0] != "p" for y in walk(x)) for x in v.values()):
                r.count("unsafe constructors (obligation passes to the caller)")
                r.ok()
                continue
            if adt == PEEK:
                ok, what = pair(root, fam, v["data"], v["shape"])
                r.count("Peek constructions")
            elif adt in VIEWS:
                ok, what = view(root, adt, v)
                r.count("view constructions")
            else:
                ok, what = cursor(root, adt, v)
                r.count("iterator constructions")
            r.check(ok, k, "%s builds a %s from %s" % (label(f), nm, what), at, "%s: %s" % (label(f), what))
    r.floor("Peek constructions", 12)
    r.floor("view constructions", 6)


def view(root, adt, v):
    X, d = bare(v["value"]), v["def"]
    want = VIEWS[adt]
    ds = live(d)
    for x in ds:
        x = bare(x)
        # a copy of another view of the same kind
        o = fld(x, "def")
        if o is not None and fld(X, "value") is not None and root.same(o, fld(X, "value")):
            continue
        if x[0] == "." and x[2] == 0 and x[4] == want:
            s = fld(x[1], "def")
            s = fld(s, "shape") if s is not None else None
            if s is not None and root.same(s, X):
                continue
        return False, "a value and a definition that is not the %s definition of its shape" % want
    return True, "a value and its shape's own %s definition" % want


def cursor(root, adt, v):
    if adt.endswith("PeekMapIter"):
        m, it = bare(v["map"]), v["iter"]
        sc = slot_call(it)
        if sc and sc[1] == "iter_fn" and root.same(sc[0], (".", m, 1, "def", None)):
            o = data_owner(root, poly.ptr(sc[2][0])[0])
            if o and fld(o[1], "value") is not None and root.same(fld(o[1], "value"), m):
                return True, "a map and an iteration over that map"
        return False, "a map and an iteration that is not over it"
    l, i, n = bare(v["list"]), bare(v["index"]), bare(v["len"])
    sc = slot_call(n)
    if not sc or sc[1] != "len":
        return False, "a list and a length that is not the list's"
    o = data_owner(root, poly.ptr(sc[2][0])[0])
    if not (o and fld(o[1], "value") is not None and root.same(fld(o[1], "value"), l) and fld(sc[0], "def") is not None and root.same(fld(sc[0], "def"), l)):
        return False, "a list and the length of another"
    if not (i[0] == "k" and i[1].get("bits") == "0"):
        return False, "a list and a start index other than 0"
    return True, "a list, its length and index 0"


# ---------------------------------------------------------------- C11: nothing is read as another type
def tparams(f):
    return set(f.raw.get("gen") or [])


def typed_accesses(root):
    """(fam, block, line, type name, pointer expression) of every access through a raw pointer to a type parameter of the root"""
    gen = tparams(root.fn)
    for fam in root.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            b = g.blocks[bi]
            cr = b["fn"].crate

            def params_of(ti, fr):
                n = g.tyname(cr, ti, fr)
                return n if n in gen else None
            for s in b["s"]:
                if s[0] != "=":
                    continue
                places = []
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    places.append(rv[2])
                if rv[0] == "use" and rv[1][0] in ("c", "m"):
                    places.append(rv[1][1])
                if rv[0] == "cast" and rv[2][0] in ("c", "m"):
                    places.append(rv[2][1])
                places.append(s[1])
                for p in places:
                    if p[1] and p[1][0] == "*":
                        cr2, ti = g.locals[p[0]]
                        ty = cr2.types[ti]
                        if ty["k"] == "ptr" and ty.get("args"):
                            n = g.tyname(cr2, ty["args"][0], b["fr"])
                            if n in gen:
                                yield fam, bi, s[3], n, fam.res(g.local_expr(p[0]))
            t = b["t"]
            if t[0] == "call":
                f = g.fnval(t)
                if f and item_of(f) in ("read", "read_unaligned", "as_ref", "as_mut", "write") and "ptr" in fname(f) and t[2]:
                    n = g.tyname(cr, f["args"][-1], b["fr"]) if f.get("args") else None
                    if n in gen:
                        yield fam, bi, t[6], n, fam.res(g.expr(t[2][0]))


def owner_shape(owner):
    return (".", owner[1], 1, "shape", None)


def cmp_of(root, x, y):
    """assumption: the comparison of x and y (shapes) comes out unequal; nothing else is known"""
    cx, cy = root.canon(x), root.canon(y)

    def assume(kind, a):
        if kind == "eq":
            s = {root.canon(a[0]), root.canon(a[1])}
            if s == {cx, cy}:
                return False
        return None
    return assume


def is_shape_eq(root, kind, a, v):
    if kind == "eq":
        for x in a:
            if fld(x, "shape") is not None or poly.type_shape(root, x):
                return v
    return None


def c11(fx, r):
    P, c = program(fx)
    r.rule("a typed access through a Peek or HeapValue, a comparison of two of them and a map lookup are unreachable when the two shapes involved differ")
    for f in poly.apis(P, c):
        if not is_reader(f) or f.raw.get("unsafe"):
            continue
        root = root_of(P, f)
        for fam, bi, line, T, e in typed_accesses(root):
            at = fam.g.where(bi, line)
            base, off = poly.ptr(e)
            k = "%s:access:%s" % (label(f), T)
            if base[0] == "item":
                # what the hashing closure is handed is what was wrapped for it
                ok = any(poly.ptr(a)[0][0] == "p" and root.g.ts(root.g.argl[poly.ptr(a)[0][1]]).endswith("&mut " + T) or
                         root.g.ts(root.g.argl[poly.ptr(a)[0][1]]) == "&mut " + T
                         for a in base[5] if poly.ptr(a)[0][0] == "p")
                r.check(ok, k, "%s reads `%s` through a pointer that was not made from one" % (label(f), T), at)
                r.count("typed accesses")
                continue
            o = data_owner(root, base)
            if o is None and base[0] == "p":
                r.ok()
                continue
            if not r.check(o is not None, k + ":owner", "%s reads a `%s` through a pointer whose owner is not recognised" % (label(f), T), at):
                continue
            r.count("typed accesses")
            sh = ("k", flow._K({"utrait": "facet_core::Facet", "uneval": "facet_core::Facet::SHAPE", "_T": T}))
            want = root.canon(owner_shape(o))

            def assume(kind, a, want=want, T=T):
                if kind == "eq":
                    for x, y in (a, a[::-1]):
                        if poly.type_shape(root, x) == T and root.canon(y) == want:
                            return False
                return None
            r.check(not root.enters(fam, bi, assume) and off is None, k,
                    "%s reads the value as a `%s` although its shape may be another one" % (label(f), T), at,
                    "%s: access as %s only when the shape is %s's" % (label(f), T, T))
        for fam, bi, fe, args in calls(root):
            if isinstance(fe, dict):
                continue
            sc = slot_call(("call", fe, args, bi))
            if not sc:
                continue
            D, slot, a = sc
            at = fam.g.where(bi)
            if fld(D, "shape") is None and accessor(D, ("shape",)) is None and not def_owners(D):
                continue
            r.count("table calls")
            first = data_owner(root, poly.ptr(a[0])[0]) if a else None
            if slot in ("eq", "partial_ord", "ord"):
                X = shape_owner(D)
                second = data_owner(root, poly.ptr(a[1])[0])
                ok = X is not None and first is not None and second is not None and root.same(X, first[1]) or \
                    X is not None and first is not None and second is not None and root.same(X, second[1])
                if not r.check(ok, "%s:%s:args" % (label(f), slot), "%s calls `%s` of a shape with values it does not belong to" % (label(f), slot), at):
                    continue
                if root.same(first[1], second[1]):
                    r.ok()
                    continue
                r.check(not root.enters(fam, bi, cmp_of(root, owner_shape(first), owner_shape(second))), "%s:%s" % (label(f), slot),
                        "%s calls `%s` on two values whose shapes may differ" % (label(f), slot), at,
                        "%s: `%s` only with equal shapes" % (label(f), slot))
                continue
            if slot == "type_name":
                continue
            if slot in ("iter_vtable.next", "iter_vtable.dealloc", "iter_vtable.next_back"):
                it = fld(a[0], "iter")
                m = fld(D, "def")
                r.check(it is not None and m is not None and fld(m, "map") is not None and root.same(fld(m, "map"), it), "%s:%s:own" % (label(f), slot),
                        "%s calls `%s` of one map on the iteration of another" % (label(f), slot), at)
                continue
            if first is None:
                r.check(False, "%s:%s:own" % (label(f), slot), "%s calls `%s` on a pointer whose owner is not recognised" % (label(f), slot), at)
                continue
            X = shape_owner(D)
            own = (X is not None and root.same(X, first[1])) or tied(root, (".", bare(D), 0, "vtable", None) if X is None else D, first[1])
            r.check(own and poly.ptr(a[0])[1] is None, "%s:%s:own" % (label(f), slot), "%s calls `%s` of one shape on another value" % (label(f), slot), at)
            if slot in ("contains_key_fn", "get_value_ptr_fn"):
                base = poly.ptr(a[1])[0]
                ksh = None
                if base[0] == "p":
                    s = root.g.ts(root.g.argl[base[1]])
                    ksh = s.split(" ", 1)[1] if s.startswith("&'") else s[1:]
                kc = root.canon((".", D, 0, "k", None))
                ow = data_owner(root, base)

                def assume(kind, x, ksh=ksh, ow=ow, D=D):
                    if kind == "eq":
                        for p, q in (x, x[::-1]):
                            kq = accessor(q, ("k",))
                            if kq and root.same(kq[1], D):
                                if ksh is not None and poly.type_shape(root, p) == ksh:
                                    return False
                                if ow is not None and root.same(p, owner_shape(ow)):
                                    return False
                    return None
                r.check(not root.enters(fam, bi, assume), "%s:%s:key" % (label(f), slot),
                        "%s looks a key up in a map whose keys may be of another type" % label(f), at,
                        "%s: `%s` only with the map's key shape" % (label(f), slot))
    r.floor("typed accesses", 2)
    r.floor("table calls", 14)


# ---------------------------------------------------------------- C12: operations of a Peek are the value's own
FORWARD = [
    # (type, trait, item, table slot, result when the slot is absent)
    (PEEK, None, "eq", "eq", ("v", "None")), (PEEK, None, "partial_cmp", "partial_ord", ("v", "None")),
    (PEEK, None, "hash", "hash", 0), (PEEK, None, "type_name", "type_name", None),
    (PEEK, "core::cmp::PartialEq", "eq", "eq", 0), (PEEK, "core::cmp::PartialOrd", "partial_cmp", "partial_ord", ("v", "None")),
    (PEEK, "core::hash::Hash", "hash", "hash", "never"),
    (PEEK, "core::fmt::Display", "fmt", "display", None), (PEEK, "core::fmt::Debug", "fmt", "debug", None),
    (HEAP, None, "fmt_display", "display", None), (HEAP, None, "fmt_debug", "debug", None),
    (HEAP, "core::fmt::Display", "fmt", "display", None), (HEAP, "core::fmt::Debug", "fmt", "debug", None),
    (HEAP, "core::cmp::PartialEq", "eq", "eq", 0), (HEAP, "core::cmp::PartialOrd", "partial_cmp", "partial_ord", ("v", "None")),
    ("facet_reflect::peek::option::PeekOption", None, "is_some", "is_some_fn", None),
    ("facet_reflect::peek::list::PeekList", None, "len", "len", None),
    ("facet_reflect::peek::map::PeekMap", None, "len", "len_fn", None),
    ("facet_reflect::peek::map::PeekMap", None, "contains_key", "contains_key_fn", None),
]


def find_api(P, c, ty, trait, item):
    for f in poly.apis(P, c):
        if f.raw["item"] == item and poly.self_ty(f) == ty and poly.trait_of(f) == trait and not f.raw.get("macro"):
            return f
    return None


def self_memory(root, e, i):
    """is the pointer the data of parameter i (a Peek, a view or a HeapValue)?"""
    base, off = poly.ptr(e)
    if off is not None:
        return False
    o = data_owner(root, base)
    if o is None:
        return False
    x = bare(o[1])
    if x[0] == "." and x[3] == "value":
        x = bare(x[1])
    return x == ("p", i)


def retv(x):
    return x[:2] if isinstance(x, tuple) else x


def equal_shapes(root, v):
    def assume(kind, a):
        return is_shape_eq(root, kind, a, v)
    return assume


def slot_blocks(root, slot):
    out = []
    for fam, bi, fe, args in calls(root):
        if isinstance(fe, dict):
            continue
        sc = slot_call(("call", fe, args, bi))
        if sc:
            out.append((fam, bi, sc[1], sc[2], sc[0]))
    return out


def slot_discr(e, slot):
    """is e (a place whose variant is asked for) the table entry `slot`?"""
    e = bare(e)
    return e[0] == "." and e[3] == slot and fld(e[1], "vtable") is not None or (e[0] == "." and e[3] == slot)


def c12(fx, r):
    P, c = program(fx)
    r.rule("each comparison, hash, formatting and counting operation of Peek, its views and HeapValue calls exactly the same-named entry of the "
           "value's own table, on its operands in order, and returns what it returned; without the entry, or for different shapes, it returns the documented negative")
    for ty, trait, item, slot, absent in FORWARD:
        f = find_api(P, c, ty, trait, item)
        nm = "%s::%s%s" % (ty.split("::")[-1], trait.split("::")[-1] + "::" if trait else "", item)
        if not r.check(f is not None, nm + ":exists", "%s is no longer there to decide" % nm):
            continue
        root = root_of(P, f)
        at = root.at
        sl = slot_blocks(root, slot)
        names = {x[2] for x in sl}
        if not r.check(names == {slot}, nm + ":slot", "%s uses table entries %s instead of `%s`" % (nm, sorted(names), slot), at):
            continue
        r.count("forwarded operations")
        main = [x for x in sl if x[0] is root.fams[0]]
        if not r.check(len(main) == len(sl), nm + ":direct", "%s calls `%s` from inside another operation" % (nm, slot), at):
            continue
        n = len(root.g.argl)
        for fam, bi, _, args, D in main:
            where = root.g.where(bi)
            if slot == "type_name":
                r.check(bare(args[0]) == ("p", 1) and bare(args[1]) == ("p", 2), nm + ":args", "%s hands `%s` other arguments than its own" % (nm, slot), where)
                continue
            r.check(self_memory(root, args[0], 0), nm + ":self", "%s calls `%s` on something else than the value itself" % (nm, slot), where)
            if slot in ("eq", "partial_ord"):
                r.check(self_memory(root, args[1], 1), nm + ":other", "%s calls `%s` with something else than the other value" % (nm, slot), where)
            elif slot in ("display", "debug"):
                r.check(bare(args[1]) == ("p", 1), nm + ":f", "%s formats into another formatter" % nm, where)
            elif slot == "hash":
                r.check(poly.ptr(args[1])[0] == ("p", 1), nm + ":hasher", "%s hashes into another hasher" % nm, where)
            elif slot == "contains_key_fn":
                r.check(poly.ptr(args[1])[0] == ("p", 1), nm + ":key", "%s asks for another key" % nm, where)
            X = shape_owner(D)
            if X is not None:
                o = data_owner(root, poly.ptr(args[0])[0])
                r.check(o is not None and root.same(X, o[1]), nm + ":own", "%s uses the table of another value's shape" % nm, where)
        blocks = {bi: "c" for _, bi, _, _, _ in main}

        def present(v):
            def assume(kind, a):
                if kind == "discr" and slot_discr(a[0], slot):
                    return v
                if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("is_some", "is_none") and slot_discr(a[1][0], slot):
                    return v if item_of(a[0]) == "is_some" else 1 - v
                return is_shape_eq(root, kind, a, True) if slot != "contains_key_fn" else (True if kind == "eq" else None)
            return assume
        out = root.outcomes(root.fams[0], present(1), marks=blocks)
        r.check(bool(out) and all(cnt == (("c", 1),) for cnt, _ in out), nm + ":always",
                "%s can return without calling the value's `%s`, or calls it twice" % (nm, slot), at,
                "%s returns only through one call of `%s`" % (nm, slot))
        # what is returned is what the entry returned
        ret = root.g.local_expr(0)
        comps = live(ret)
        mine = []
        for x in comps:
            y = bare(x)
            if y[0] == "agg" and y[1][2] == "Some" and y[2]:
                y = bare(y[2][0])
            if y[0] == "call" and y[3] in blocks:
                mine.append(y)
        wrong = [x for x in comps if any(y[0] == "call" and y[3] in blocks for y in walk(x)) and bare(x)[0] not in ("call", "agg")]
        if slot != "hash":
            good = bool(mine) and not wrong
            if not good:  # a boolean passed on through control flow
                vals = {}
                for v in (0, 1):
                    def av(kind, a, v=v):
                        if kind == "call" and a[2] in blocks:
                            return v
                        return present(1)(kind, a)
                    vals[v] = {retv(x) for _, x in root.outcomes(root.fams[0], av)}
                good = vals == {0: {0}, 1: {1}}
            r.check(good, nm + ":result", "%s does not return what the value's `%s` returned" % (nm, slot), at)
        elif trait is None:
            r.check({retv(x) for _, x in out} == {1}, nm + ":result", "%s does not report that the value was hashed" % nm, at)
        if slot == "hash":
            ok = False
            for fam in root.fams[1:]:
                for bi in sorted(fam.g.reachable()):
                    t = fam.g.blocks[bi]["t"]
                    if t[0] == "call" and fam.g.fnval(t) and item_of(fam.g.fnval(t)) == "write" and len(t[2]) == 2:
                        b0, b1 = poly.ptr(fam.g.expr(t[2][0]))[0], bare(fam.g.expr(t[2][1]))
                        if bare(b0)[:2] == ("p", 1) and b1[:2] == ("p", 2) and not fam.g.avoiding({bi}):
                            ok = True
            r.check(ok, nm + ":bytes", "%s does not pass every byte string it is handed to the hasher" % nm, at)
        if absent is not None:
            out = {retv(x) for _, x in root.outcomes(root.fams[0], present(0))}
            want = set() if absent == "never" else {absent}
            r.check(out == want, nm + ":absent", "%s does not return %s when the value has no `%s` (returns %s)" % (nm, absent, slot, sorted(map(str, out))), at)
        if slot in ("eq", "partial_ord"):
            out = {retv(x) for _, x in root.outcomes(root.fams[0], equal_shapes(root, False))}
            r.check(out == {absent}, nm + ":shapes", "%s does not return %s for values of different shapes" % (nm, absent), at)
        if slot == "contains_key_fn":
            def other(kind, a):
                return False if kind == "eq" and any(accessor(x, ("k",)) for x in a) else None
            out = {retv(x) for _, x in root.outcomes(root.fams[0], other)}
            r.check(out == {0}, nm + ":shapes", "%s does not answer false for a key of another type" % nm, at)
    # the negations
    for ty, item, base in (("facet_reflect::peek::option::PeekOption", "is_none", "is_some_fn"),):
        f = find_api(P, c, ty, None, item)
        root = root_of(P, f)
        got = {}
        for v in (0, 1):
            def av(kind, a, v=v):
                if kind == "call" and not isinstance(a[0], dict):
                    sc = slot_call(("call", a[0], a[1], a[2]))
                    return v if sc and sc[1] == base else None
                return None
            got[v] = {x for _, x in root.outcomes(root.fams[0], av)}
        r.check(got == {0: {1}, 1: {0}}, item, "PeekOption::is_none is not the opposite of the option's own is_some", root.at)
    for ty, lenslot in (("facet_reflect::peek::list::PeekList", "len"), ("facet_reflect::peek::map::PeekMap", "len_fn")):
        f = find_api(P, c, ty, None, "is_empty")
        root = root_of(P, f)
        got = {}
        for n in (0, 1):
            def av(kind, a, n=n):
                if kind in ("eq", "lt", "le"):
                    vs = []
                    for x in a:
                        sc = slot_call(x)
                        vs.append(n if sc and sc[1] == lenslot else int(x[1]["bits"]) if x[0] == "k" and "bits" in x[1] else None)
                    if None not in vs:
                        return {"eq": vs[0] == vs[1], "lt": vs[0] < vs[1], "le": vs[0] <= vs[1]}[kind]
                if kind == "call" and not isinstance(a[0], dict):
                    sc = slot_call(("call", a[0], a[1], a[2]))
                    return n if sc and sc[1] == lenslot else None
                return None
            got[n] = {x for _, x in root.outcomes(root.fams[0], av)}
        r.check(got == {0: {1}, 1: {0}}, ty.split("::")[-1] + "::is_empty", "%s::is_empty is not `length == 0`" % ty.split("::")[-1], root.at)
    r.floor("forwarded operations", 19)


# ---------------------------------------------------------------- C13: the variant an enum value is read as
INTS = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "USize": "usize", "I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64", "ISize": "isize"}
ENUM = "facet_reflect::peek::enum_::PeekEnum"
STRUCT = "facet_reflect::peek::struct_::PeekStruct"
LIST = "facet_reflect::peek::list::PeekList"


def adt(fx, crate, path):
    return next((a for a in fx.crate(crate).d["adts"] if a["id"] == path), None)


def is_disc(root, e, depth=0):
    """is e the discriminant of the PeekEnum parameter 0, as read from its memory?"""
    reads = set()
    for x in live(strip(e)):
        while x[0] == "cast":
            x = x[2]
        x = strip(x)
        if x[0] == "call" and item_of(x[1]) == "discriminant":
            return True
        while x[0] == "call" and item_of(x[1]) in ("from", "into") and len(x[2]) == 1:
            x = strip(x[2][0])
        m = memory_read(root, x)
        if m is None or not self_memory(root, m, 0):
            return False
        reads.add(root.canon(x))
    return bool(reads)


def memory_read(root, e):
    """the pointer expression when e is what is read from memory through it"""
    e = strip(e)
    if e[0] == "call" and isinstance(e[1], dict) and item_of(e[1]).startswith("read") and e[2]:
        return e[2][0]
    if e[0] == "*" and e[1][0] in ("cast", "call"):
        return e[1]
    return None


def selection(root, attr, key):
    """assumption maker: no (v=False) / every (v=True) element's `attr` equals the key"""
    def is_match(fam_res, a):
        for x, y in (a, a[::-1]):
            o = fld(x, attr)
            if o is not None and key(y):
                return o
        return None

    def make(v, seen=None):
        def assume(kind, a):
            if kind == "eq":
                o = is_match(None, a)
                if o is not None:
                    if seen is not None:
                        seen.append(o)
                    return v
                return None
            if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) in ("position", "find", "any", "find_map") and len(a[1]) == 2:
                x, d = poly.closure_of(a[1][1])
                for fam in root.fams[1:]:
                    if fam.at and fam.at[1] == a[2] and fam.g.fn.id == d:
                        outs = {r for _, r in root.outcomes(fam, assume)}
                        if v is False and outs == {0}:
                            return 0 if item_of(a[0]) == "any" else ("v", "None", 0)
                        if v is True and outs == {1}:
                            return None
                        if v is False:
                            return ("v", "Some", 1) if item_of(a[0]) != "any" else 1
                return None
            return None
        return assume
    return make


def ok_blocks(root, fam, bi_of=None):
    pass


def success(x):
    return isinstance(x, tuple) and x[0] == "v" and x[1] in ("Some", "Ok")


def failure(x):
    return isinstance(x, tuple) and x[0] == "v" and x[1] in ("None", "Err")


def c13(fx, r):
    P, c = program(fx)
    r.rule("the discriminant of an enum is read with the width and signedness of its representation and widened to i64; "
           "the active variant is the variant of the enum's own list whose recorded discriminant equals it, never another")
    reprs = adt(fx, "facet_core", "facet_core::types::enum_::EnumRepr")["variants"]
    r.count("representations", len(reprs))
    f = find_api(P, c, ENUM, None, "discriminant")
    root = root_of(P, f)
    g = root.g
    for v in reprs:
        d = int(v["discr"])

        def assume(kind, a, d=d):
            if kind == "discr":
                e = bare(a[0])
                if e[0] == "." and e[3] == "repr" and fld(e[1], "def") is not None:
                    return d
            return None
        vis = root.reach(root.fams[0], assume)
        reads = []
        for fam, bi, fe, args in calls(root):
            if bi in vis and isinstance(fe, dict) and item_of(fe).startswith("read") and "ptr" in fname(fe):
                b = g.blocks[bi]
                reads.append((g.tyname(b["fn"].crate, fe["args"][-1], b["fr"]), args[0], bi))
        for bi in sorted(vis):
            b = g.blocks[bi]
            for s in b["s"]:
                if s[0] == "=" and s[2][0] in ("use", "cast"):
                    o = s[2][1] if s[2][0] == "use" else s[2][2]
                    if o[0] in ("c", "m") and o[1][1] == ["*"]:
                        cr, ti = g.locals[o[1][0]]
                        e = g.local_expr(o[1][0])
                        if isinstance(ti, int) and cr.types[ti].get("args") and self_memory(root, e, 0) and poly.ptr(e)[0] != ("p", 0):
                            reads.append((g.tyname(cr, cr.types[ti]["args"][0], b["fr"]), e, bi))
        want = INTS.get(v["name"])
        if not r.check(want is not None, "repr:" + v["name"], "the representation %s has no integer type this check knows" % v["name"], root.at):
            continue
        r.check([x[0] for x in reads] == [want], "disc:" + v["name"],
                "the discriminant of a repr(%s) enum is read as %s" % (want, ", ".join(x[0] for x in reads) or "nothing"), root.at,
                "EnumRepr::%s reads a %s" % (v["name"], want))
        for n, a, bi in reads:
            r.check(self_memory(root, a, 0), "disc:" + v["name"] + ":at", "the discriminant is not read from the start of the value", g.where(bi))
    ret = root.g.local_expr(0)
    # each returned component is a read, or a read converted to i64 without loss
    for x in live(strip(ret)):
        seq = []
        y = strip(x)
        while True:
            if y[0] == "cast":
                cr, ti = y[3]
                seq.append(cr.types[ti]["s"] if isinstance(ti, int) else str(ti))
                y = strip(y[2])
                continue
            if y[0] == "call" and isinstance(y[1], dict) and item_of(y[1]) in ("from", "into") and str(y[1].get("trait", "")).startswith("core::convert::"):
                b = g.blocks[y[3]]
                fr, to = [g.tyname(b["fn"].crate, t, b["fr"]) for t in y[1]["args"][:2]][::-1 if item_of(y[1]) == "from" else 1]
                seq += [to, fr]
                y = strip(y[2][0])
                continue
            break
        ok = memory_read(root, y) is not None
        if ok and seq:
            src = None
            if y[0] == "call":
                b = g.blocks[y[3]]
                src = g.tyname(b["fn"].crate, y[1]["args"][-1], b["fr"])
            seq = ([src] if src else []) + seq[::-1]
            ok = seq[-1] == "i64" and all(lossless(p, q) for p, q in zip(seq, seq[1:]))
        r.check(ok, "disc:convert:%s" % (seq or "direct"), "the discriminant is changed on its way to i64", root.at)
    # the active variant
    key = lambda e: is_disc(rt, e)
    for item in ("variant_index", "active_variant", "variant_name_active"):
        f = find_api(P, c, ENUM, None, item)
        if not r.check(f is not None, item + ":exists", "PeekEnum::%s is no longer there to decide" % item):
            continue
        rt = root_of(P, f)
        r.count("variant selections")
        mk = selection(rt, "discriminant", key)
        seen = []
        out = rt.outcomes(rt.fams[0], mk(False, seen))
        r.check(not out, item + ":only", "PeekEnum::%s can answer with a variant whose discriminant is not the value's" % item, rt.at,
                "PeekEnum::%s: no answer unless a variant's discriminant matches" % item)
        r.check(bool(seen), item + ":compare", "PeekEnum::%s does not compare the variants' discriminants with the value's" % item, rt.at)
        r.check(bool(rt.outcomes(rt.fams[0], mk(True))), item + ":some", "PeekEnum::%s answers for no variant" % item, rt.at)
        ids = {poly.elem(rt, o) for o in seen}
        ret = rt.g.local_expr(0)
        if item == "variant_name_active":
            es = [fld(x, "name") for x in live(ret)]
        else:
            es = list(live(ret))
        for e in es:
            if e is None:
                r.bad(item + ":what", "PeekEnum::%s does not return the selected variant's name" % item, rt.at)
                continue
            if item == "variant_index":
                ok = any(i and poly.index(rt, e) == i[1] for i in ids)
            else:
                i = poly.elem(rt, e)
                ok = i is not None and i in ids
            r.check(ok, item + ":same", "PeekEnum::%s returns another variant than the one whose discriminant matched" % item, rt.at)
        for o in seen:
            s = poly.slice_of(rt, o)
            d = fld(s, "variants") if s is not None else None
            v = fld(d, "def") if d is not None else None
            r.check(v == ("p", 0), item + ":list", "PeekEnum::%s searches another list than the enum's own variants" % item, rt.at)
    r.floor("representations", 10)
    r.floor("variant selections", 3)


WIDTH = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "usize": (0, 64), "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "isize": (1, 64), "u128": (0, 128), "i128": (1, 128)}


def lossless(a, b):
    """every value of a is a value of b, or (64 bits to i64) keeps its bit pattern"""
    if a not in WIDTH or b not in WIDTH:
        return False
    (sa, na), (sb, nb) = WIDTH[a], WIDTH[b]
    if na == nb:
        return True
    return nb > na and (sb or not sa) and not (sa and not sb)


# ---------------------------------------------------------------- C14: scalar types
def c14(fx, r):
    P, c = program(fx)
    r.rule("ScalarType::try_from_shape answers Some(V) exactly for the shape whose type id is that of the type V names, and each V is reached")
    f = next((f for f in poly.apis(P, c) if f.raw["item"] == "try_from_shape"), None)
    if not r.check(f is not None, "exists", "ScalarType::try_from_shape is no longer there to decide"):
        return
    pol = lambda callee, fv: vt.policy(callee, fv) and not (poly.self_ty(callee) or "").endswith("ConstTypeId")
    root = poly.Root(P, f, pol)
    g = root.g
    ST = "facet_reflect::scalar::ScalarType"
    variants = adt(fx, "facet_reflect", ST)["variants"]

    def tid(e):
        e = bare(e)
        if e[0] == "call" and isinstance(e[1], dict) and item_of(e[1]) == "of" and e[1].get("args"):
            b = g.blocks[e[3]]
            return g.tyname(b["fn"].crate, e[1]["args"][-1], b["fr"])
        if e[0] == "k":
            ck = e[1]
            v = str(ck.get("uname", ""))
            if ck.get("uargs") and "of" in v.split("::"):
                return g.tyname(ck["_cr"], ck["uargs"][-1], ck.get("_fr", 0))
        return None

    compared = set()

    def assuming(T):
        def assume(kind, a):
            if kind == "eq":
                for x, y in (a, a[::-1]):
                    o = fld(x, "id")
                    t = tid(y)
                    if t is None and poly.type_shape(root, y) is not None:
                        o, t = x, poly.type_shape(root, y)
                    if o is not None and bare(o) == ("p", 0) and t is not None:
                        compared.add(t)
                        return t == T
            return None
        return assume
    makes = {}
    for bi in sorted(g.reachable()):
        for s in g.blocks[bi]["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == ST:
                makes.setdefault(bi, []).append((s[2][1][2], s[3]))
            if s[0] == "=" and s[2][0] in ("agg", "use"):
                for o in (s[2][2] if s[2][0] == "agg" else [s[2][1]]):
                    if o[0] == "k" and isinstance(o[1].get("ty"), int) and o[1]["_cr"].types[o[1]["ty"]].get("def") == ST:
                        n = next((v["name"] for v in variants if v["discr"] == o[1].get("bits")), None)
                        makes.setdefault(bi, []).append((n, s[3]))
    reach0 = root.reach(root.fams[0], assuming(None))
    r.check(not any(bi in reach0 for bi in makes), "none", "a shape that is none of the known scalars is still given a ScalarType", root.at)
    r.check({retv(x) for _, x in root.outcomes(root.fams[0], assuming(None))} == {("v", "None")}, "none:result",
            "a shape that is none of the known scalars does not get None", root.at)
    got = {}
    for T in sorted(compared):
        vis = root.reach(root.fams[0], assuming(T))
        vs = {n for bi in makes if bi in vis for n, _ in makes[bi]}
        r.count("type ids compared")
        want = scalar_name(T)
        r.check(vs == {want}, "type:" + T, "the shape of `%s` is classified as %s, not as %s" % (T, ", ".join(sorted(map(str, vs))) or "nothing", want), root.at,
                "`%s` is ScalarType::%s" % (T, want))
        for v in vs:
            got.setdefault(v, set()).add(T)
    for v in variants:
        r.check(v["name"] in got, "variant:" + v["name"], "no shape is classified as ScalarType::%s" % v["name"], root.at)
    f = find_api(P, c, PEEK, None, "scalar_type")
    rt = poly.Root(P, f, lambda callee, fv: vt.policy(callee, fv) and callee.raw.get("item") != "try_from_shape")
    x = rt.g.local_expr(0)
    r.check(x[0] == "call" and item_of(x[1]) == "try_from_shape" and fld(x[2][0], "shape") == ("p", 0), "Peek::scalar_type",
            "Peek::scalar_type does not classify the value's own shape", rt.at)
    r.floor("type ids compared", 21)


def scalar_name(t):
    n = t.replace("'static ", "").replace("'_ ", "")
    if n == "()":
        return "Unit"
    if n in ("&str", "str"):
        return "Str"
    if "Cow<" in n and "str" in n:
        return "CowStr"
    n = n.split("<")[0].split("::")[-1]
    return {"usize": "USize", "isize": "ISize"}.get(n, n[0].upper() + n[1:])


# ---------------------------------------------------------------- C15: lookups answer with what was asked for
def peek_fields(root):
    """(fam, block, line, field expression) for every Peek built as a field of the value"""
    for fam, bi, adt_, v, line in aggs(root, {PEEK}):
        a = accessor(v["shape"], ("shape",))
        if a and bare(v["shape"])[0] == "call":
            yield fam, bi, line, a[1]


def in_def(root, e, enum):
    """is slice expression e the field list of parameter 0's own definition (for an enum: of its active variant)?"""
    o = fld(e, "fields")
    if o is None:
        return False
    if not enum:
        return fld(o, "def") == ("p", 0)
    v = fld(o, "data")
    return v is not None and is_active(root, v)


SELECT = ("variant_index", "active_variant")


def keep_selection(callee, f):
    return policy(callee, f) and not (poly.self_ty(callee) == ENUM and callee.raw["item"] in SELECT)


def enum_root(P, f):
    k = ("enum", f.id)
    if k not in _roots["r"]:
        _roots["r"][k] = poly.Root(P, f, keep_selection, cap=60000)
    return _roots["r"][k]


def is_active(root, v):
    """is v the active variant of parameter 0? (variant_index and active_variant are decided by C13)"""
    v = bare(v)
    if v[0] == "call" and item_of(v[1]) == "active_variant":
        return self_is(v[2][0])
    x = poly.elem(root, v)
    s = poly.slice_of(root, v)
    if x is None or s is None or fld(s, "variants") is None or fld(fld(s, "variants"), "def") != ("p", 0):
        return False
    if v[0] == "idx":
        i = bare(v[2])
    elif v[0] == "call" and len(v[2]) == 2:
        i = bare(v[2][1])
    else:
        i = None
    if i is not None and i[0] == "call" and item_of(i[1]) == "variant_index":
        return self_is(i[2][0])
    mk = selection(root, "discriminant", lambda e: is_disc(root, e))
    seen = []
    out = root.outcomes(root.fams[0], mk(False, seen))
    return bool(seen) and not out and x in {poly.elem(root, o) for o in seen}


def self_is(e):
    return bare(e) == ("p", 0)


def idx_bound(root, n_of, i_of, v):
    """assumption: the index is (v=True) / is not (v=False) below the length"""
    def assume(kind, a):
        if kind in ("lt", "le"):
            x, y = a
            if i_of(x) and n_of(y):
                return v if kind == "lt" else None if v else None
            if n_of(x) and i_of(y):
                return (not v) if kind == "le" else (False if v else None)
        if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) == "get" and len(a[1]) == 2 and i_of(bare(a[1][1])):
            return ("v", "Some", 1) if v else ("v", "None", 0)
        if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) == "contains" and len(a[1]) == 2 and i_of(bare(a[1][1])):
            return int(v)
        return None
    return assume


def panics(root, vis):
    """reached blocks that can only end in a panic, or a bounds check that fails"""
    g = root.g
    out = []
    for bi in vis:
        t = g.blocks[bi]["t"]
        if t[0] == "call" and t[4] is None:
            out.append(bi)
    return out


def bound_asserts(root, vis, assume):
    g = root.g
    out = []
    for bi in vis:
        t = g.blocks[bi]["t"]
        if t[0] == "assert" and "Bounds" in str(t[3][0]):
            out.append(bi)
    return out


def by_index(P, c, r, ty, item, enum):
    nm = "%s::%s" % (ty.split("::")[-1], item)
    f = find_api(P, c, ty, None, item)
    if not r.check(f is not None, nm + ":exists", "%s is no longer there to decide" % nm):
        return
    root = enum_root(P, f) if enum else root_of(P, f)
    r.count("index lookups")
    n = 0
    slices = []
    for fam, bi, line, F in peek_fields(root):
        n += 1
        el = poly.elem(root, F)
        r.check(el is not None and el[1] == ("e", root.canon(("p", 1))), nm + ":which", "%s answers with another field than the one at the index" % nm,
                fam.g.where(bi, line), "%s: the field at the index" % nm)
        s = poly.slice_of(root, F)
        r.check(s is not None and in_def(root, s, enum), nm + ":list", "%s looks in another list than the value's own fields" % nm, fam.g.where(bi, line))
        if s is not None:
            slices.append(root.canon(s))
    if not r.check(n > 0, nm + ":peek", "%s builds no field" % nm, root.at):
        return
    i_of = lambda e: bare(e) == ("p", 1)

    def n_of(e):
        e = bare(e)
        if e[0] == "un" and e[1] == "PtrMetadata":
            return root.canon(bare(e[2])) in slices
        return e[0] == "call" and item_of(e[1]) == "len" and root.canon(bare(e[2][0])) in slices
    bound(r, root, nm, n_of, i_of)


def bound(r, root, nm, n_of, i_of):
    lo, hi = idx_bound(root, n_of, i_of, True), idx_bound(root, n_of, i_of, False)
    vis = set()
    out = {x for _, x in root.outcomes(root.fams[0], hi, vis)}
    r.check(bool(out) and all(failure(x) for x in out), nm + ":beyond", "%s does not answer an index past the end with an error or None (%s)" % (nm, sorted(map(str, out))), root.at,
            "%s: index past the end is refused" % nm)
    for bi in bound_asserts(root, vis, hi):
        t = root.g.blocks[bi]["t"]
        c = root.g.expr(t[1])
        if c[0] == "bin" and i_of(c[2]) and n_of(c[3]):
            r.bad(nm + ":panic", "%s panics for an index past the end" % nm, root.g.where(bi))
    out = {x for _, x in root.outcomes(root.fams[0], lo)}
    r.check(bool(out) and all(success(x) for x in out), nm + ":within", "%s refuses an index within bounds (%s)" % (nm, sorted(map(str, out))), root.at)


def by_name(P, c, r, ty, item, enum, what):
    nm = "%s::%s" % (ty.split("::")[-1], item)
    f = find_api(P, c, ty, None, item)
    if not r.check(f is not None, nm + ":exists", "%s is no longer there to decide" % nm):
        return
    root = enum_root(P, f) if enum else root_of(P, f)
    r.count("name lookups")
    mk = selection(root, "name", lambda e: bare(e) == ("p", 1))
    seen = []
    out = {x for _, x in root.outcomes(root.fams[0], mk(False, seen))}
    r.check(bool(out) and all(failure(x) for x in out), nm + ":unknown", "%s does not refuse a name no field has (%s)" % (nm, sorted(map(str, out))), root.at,
            "%s: refuses a name no field has" % nm)
    if not r.check(bool(seen), nm + ":compare", "%s does not compare field names with the one asked for" % nm, root.at):
        return
    ids = {poly.elem(root, o) for o in seen}
    for o in seen:
        s = poly.slice_of(root, o)
        r.check(s is not None and in_def(root, s, enum), nm + ":list", "%s searches another list than the value's own fields" % nm, root.at)
    if what == "peek":
        es = [(F, fam.g.where(bi, line)) for fam, bi, line, F in peek_fields(root)]
        for F, at in es:
            el = poly.elem(root, F)
            r.check(el is not None and el in ids, nm + ":same", "%s answers with another field than the one whose name matched" % nm, at, "%s: the field whose name matched" % nm)
        r.check(bool(es), nm + ":peek", "%s builds no field" % nm, root.at)
    else:
        for x in live(root.g.local_expr(0)):
            y = bare(x)
            if y[0] == "agg" and y[1][2] == "None":
                continue
            if y[0] == "agg" and y[1][2] == "Some":
                k = poly.index(root, y[2][0])
            elif y[0] == "call" and item_of(y[1]) == "position":
                k = ("it", y[3])
            else:
                k = None
            r.check(any(i and i[1] == k for i in ids), nm + ":same", "%s answers with another index than the one whose name matched" % nm, root.at)


def iteration(P, c, r, ty, enum):
    nm = "%s::fields" % ty.split("::")[-1]
    f = find_api(P, c, ty, None, "fields")
    root = enum_root(P, f) if enum else root_of(P, f)
    r.count("field iterations")
    n = 0
    for fam in root.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            for s in g.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "tuple" and len(s[2][2]) == 2:
                    a, b = [fam.res(g.expr(o)) for o in s[2][2]]
                    fs = [F for F in (accessor(y[2][1], ("shape",)) for y in walk(b) if y[0] == "agg" and y[1][:2] == ("adt", PEEK)) if F]
                    if not fs:
                        continue
                    n += 1
                    r.check(all(samefield(root, a, F[1]) for F in fs), nm + ":pair", "%s pairs one field's description with another field's value" % nm, g.where(bi, s[3]),
                            "%s: description and value of the same field" % nm)
                    s_ = poly.slice_of(root, a)
                    r.check(s_ is not None and in_def(root, s_, enum), nm + ":list", "%s runs over another list than the value's own fields" % nm, g.where(bi, s[3]))
                    el = poly.elem(root, a)
                    whole = el is not None and (el[1][0] == "it" or range_index(root, el, s_))
                    r.check(whole, nm + ":all", "%s does not run over every field in order" % nm, g.where(bi, s[3]))
    r.check(n > 0, nm + ":items", "%s yields no (field, value) pairs this check recognises" % nm, root.at)
    # nothing is filtered: the closure yields for every index in range
    for fam in root.fams[1:]:
        if fam.at[0] is root.fams[0] and fam.g.fn.body["argc"] == 2:
            t = root.g.blocks[fam.at[1]]["t"]
            if item_of(root.g.fnval(t)) in ("filter_map",):
                def assume(kind, a):
                    if kind == "call" and isinstance(a[0], dict) and item_of(a[0]) == "get":
                        return ("v", "Some", 1)
                    return inside(kind, a)
                out = {retv(x) for _, x in root.outcomes(fam, assume)}
                r.check(out == {("v", "Some")}, nm + ":dropped", "%s leaves fields out" % nm, fam.g.where(fam.g.entry))
            elif item_of(root.g.fnval(t)) in ("filter", "take_while", "skip_while"):
                r.bad(nm + ":dropped", "%s leaves fields out" % nm, fam.g.where(fam.g.entry))


def inside(kind, a):
    """an index taken from the iteration is below the number of fields"""
    def it(e):
        return any(x[0] == "item" for x in walk(e))

    def n(e):
        e = bare(e)
        if e[0] == "un" and e[1] == "PtrMetadata":
            return fld(e[2], "fields") is not None
        return e[0] == "call" and item_of(e[1]) in ("len", "field_count")
    if kind in ("lt", "le"):
        if it(a[0]) and n(a[1]):
            return True
        if n(a[0]) and it(a[1]):
            return False
    return None


def range_index(root, el, s):
    """the index of the element is what a 0..len iteration over the same slice yields"""
    k = el[1]
    if k[0] != "e":
        return False
    for fam in root.fams[1:]:
        for i, x in fam.sub.items():
            if isinstance(x, tuple) and x[0] == "item" and root.canon(x) == k[1]:
                src = bare(x[5][0])
                if src[0] == "agg" and src[1][1].endswith("Range") and len(src[2]) == 2:
                    a, b = bare(src[2][0]), bare(src[2][1])
                    if b[0] == "un" and b[1] == "PtrMetadata":
                        b = ("call", {"name": "len"}, [b[2]], 0)
                    return a[0] == "k" and a[1].get("bits") == "0" and b[0] == "call" and item_of(b[1]) == "len" and root.same(bare(b[2][0]), s)
    return False


def c15(fx, r):
    P, c = program(fx)
    r.rule("field(i), field_by_name, fields, get(i), iterators and into_* answer exactly with the field, element, entry or view asked for, "
           "and with an error or None exactly when there is none")
    by_index(P, c, r, STRUCT, "field", False)
    by_index(P, c, r, ENUM, "field", True)
    by_name(P, c, r, STRUCT, "field_by_name", False, "peek")
    by_name(P, c, r, ENUM, "field_by_name", True, "peek")
    by_name(P, c, r, ENUM, "field_index", True, "index")
    iteration(P, c, r, STRUCT, False)
    iteration(P, c, r, ENUM, True)
    counts(P, c, r)
    lists(P, c, r)
    maps(P, c, r)
    # option
    f = find_api(P, c, "facet_reflect::peek::option::PeekOption", None, "value")
    root = root_of(P, f)
    for v, want in ((0, ("v", "None")), (1, ("v", "Some"))):
        def assume(kind, a, v=v):
            if kind == "call" and not isinstance(a[0], dict):
                sc = slot_call(("call", a[0], a[1], a[2]))
                if sc and sc[1] == "get_value_fn":
                    return ("v", "Some" if v else "None", v)
            if kind == "discr":
                sc = slot_call(a[0])
                if sc and sc[1] == "get_value_fn":
                    return v
            return None
        out = {retv(x) for _, x in root.outcomes(root.fams[0], assume)}
        r.check(out == {want}, "PeekOption::value:%d" % v, "PeekOption::value is not Some exactly when the option is", root.at)
    # views
    defs = adt(fx, "facet_core", "facet_core::types::Def")["variants"]
    for ty, dv in sorted(VIEWS.items()):
        item = "into_" + {"SmartPointer": "smart_pointer"}.get(dv, dv.lower())
        f = find_api(P, c, PEEK, None, item)
        if not r.check(f is not None, item + ":exists", "Peek::%s is no longer there to decide" % item):
            continue
        root = root_of(P, f)
        for d in defs:
            def assume(kind, a, d=d):
                if kind == "discr":
                    e = bare(a[0])
                    if e[0] == "." and e[3] == "def" and fld(e[1], "shape") == ("p", 0):
                        return int(d["discr"])
                return None
            out = {retv(x) for _, x in root.outcomes(root.fams[0], assume)}
            want = ("v", "Ok" if d["name"] == dv else "Err")
            r.count("view decisions")
            r.check(out == {want}, "%s:%s" % (item, d["name"]), "Peek::%s answers %s for a value defined as %s" % (item, sorted(map(str, out)), d["name"]), root.at,
                    "Peek::%s of a %s: %s" % (item, d["name"], want[1]))
    r.floor("view decisions", 54)
    r.floor("index lookups", 2)
    r.floor("name lookups", 3)


def counts(P, c, r):
    for ty, item, sl in ((STRUCT, "field_count", ("def", "fields")), (ENUM, "variant_count", ("def", "variants"))):
        nm = "%s::%s" % (ty.split("::")[-1], item)
        f = find_api(P, c, ty, None, item)
        root = root_of(P, f)
        e = bare(root.g.local_expr(0))
        if e[0] == "un" and e[1] == "PtrMetadata":
            e = ("call", {"name": "len"}, [e[2]], 0)
        o = fld(e[2][0], sl[1]) if e[0] == "call" and item_of(e[1]) == "len" else None
        r.check(o is not None and fld(o, sl[0]) == ("p", 0), nm, "%s is not the number of the definition's own %s" % (nm, sl[1]), root.at)
    f = find_api(P, c, ENUM, None, "variant_name")
    root = root_of(P, f)
    es = []
    for x in live(root.g.local_expr(0)):
        y = bare(x)
        if y[0] == "agg" and y[1][2] == "Some":
            es.append(bare(y[2][0]))
        elif not (y[0] == "agg" and y[1][2] == "None"):
            es.append(None)
    sl = []
    for e in es:
        o = fld(e, "name") if e is not None else None
        el = poly.elem(root, o) if o is not None else None
        s = poly.slice_of(root, o) if o is not None else None
        r.check(el is not None and el[1] == ("e", root.canon(("p", 1))) and fld(s, "variants") is not None, "PeekEnum::variant_name",
                "PeekEnum::variant_name does not answer with the name of the variant at the index", root.at)
        if s is not None:
            sl.append(root.canon(s))
    i_of = lambda e: bare(e) == ("p", 1)
    n_of = lambda e: (bare(e)[0] == "call" and item_of(bare(e)[1]) == "len" or bare(e)[:2] == ("un", "PtrMetadata"))
    bound(r, root, "PeekEnum::variant_name", n_of, i_of)


def lists(P, c, r):
    f = find_api(P, c, LIST, None, "get")
    root = root_of(P, f)
    n = 0
    for fam, bi, slot, args, D in slot_blocks(root, "get_item_ptr"):
        if slot == "get_item_ptr":
            n += 1
            r.check(bare(args[1]) == ("p", 1), "PeekList::get:which", "PeekList::get answers with another element than the one at the index", fam.g.where(bi), "PeekList::get: element at the index")
    r.check(n == 1, "PeekList::get:calls", "PeekList::get does not read exactly one element", root.at)
    i_of = lambda e: bare(e) == ("p", 1)

    def n_of(e):
        sc = slot_call(e)
        return bool(sc and sc[1] == "len" and self_memory(root, sc[2][0], 0))
    bound(r, root, "PeekList::get", n_of, i_of)
    # the iterator
    it = "facet_reflect::peek::list::PeekListIter"
    f = find_api(P, c, it, "core::iter::traits::iterator::Iterator", "next")
    root = root_of(P, f)
    g = root.g
    isidx = lambda e: fld(e, "index") == ("p", 0)
    islen = lambda e: fld(e, "len") == ("p", 0) or (slot_call(e) or ("", ""))[1] == "len"
    at = root.at
    hi = idx_bound(root, islen, isidx, False)
    out = {x for _, x in root.outcomes(root.fams[0], hi)}
    r.check(bool(out) and all(failure(x) for x in out), "PeekListIter::next:end", "PeekListIter::next does not end with None at the end of the list", at)
    lo = idx_bound(root, islen, isidx, True)
    steps, uses, stepat = {}, {}, []
    for bi in sorted(g.reachable()):
        for si, s in enumerate(g.blocks[bi]["s"]):
            if s[0] == "=" and s[1][1] and s[1][1][-1] != "*" and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "index":
                e = bare(g._rv_expr((bi, si, s[2]), 0, ()))
                if e[0] == "." and e[1][0] == "bin":
                    e = e[1]
                ok = e[0] == "bin" and e[1].startswith("Add") and isidx(e[2]) and bare(e[3])[0] == "k" and bare(e[3])[1].get("bits") == "1"
                r.check(ok, "PeekListIter::next:step", "PeekListIter::next does not advance by one element", g.where(bi, s[3]), "PeekListIter::next: index advances by 1")
                steps[bi] = "step"
                stepat.append((bi, si))
    for fam, bi, slot, args, D in slot_blocks(root, "get_item_ptr"):
        if slot == "get_item_ptr":
            r.check(isidx(args[1]), "PeekListIter::next:which", "PeekListIter::next yields another element than the one at its index", g.where(bi))
            uses[bi] = "use"
    res = root.outcomes(root.fams[0], lo, marks={**{b: ["step"] for b in steps}, **{b: (["use", "step"] if b in steps else ["use"]) for b in uses}})
    bad = [x for x in res if success(x[1]) and dict(x[0]) != {"step": 1, "use": 1}]
    r.check(bool(steps) and bool(uses) and any(success(x) for _, x in res) and not bad, "PeekListIter::next:once",
            "PeekListIter::next can yield an element without advancing exactly once", at)
    # the element read is the one at the index the step starts from: no path steps before that index is loaded
    for u in uses:
        for lb, li in loads(g, g.blocks[u]["t"][2][1]):
            for sb, si in stepat:
                late = (lb == sb and si < li) or (lb != sb and g.avoiding(set(), start=sb, goals={lb}))
                r.check(not late, "PeekListIter::next:order", "PeekListIter::next advances before it reads", at)
    f = find_api(P, c, it, "core::iter::traits::iterator::Iterator", "size_hint")
    if f is not None:
        root = root_of(P, f)
        for x in live(root.g.local_expr(0)):
            y = bare(x)
            ok = y[0] == "agg" and y[1][0] == "tuple" and len(y[2]) == 2
            if ok:
                hi = bare(y[2][1])
                ok = hi[0] == "agg" and hi[1][2] == "Some" and remaining(root, y[2][0]) and remaining(root, hi[2][0])
            r.check(ok, "PeekListIter::size_hint", "the size hint of a list iteration is not the number of elements left", root.at,
                    "PeekListIter::size_hint: len - index, twice")


def remaining(root, e):
    """len - index of the iterator"""
    e = bare(e)
    if e[0] == "." and e[3] in (None, "0") and e[2] == 0:
        e = bare(e[1])
    if e[0] == "call" and item_of(e[1]) in ("saturating_sub", "wrapping_sub"):
        a, b = e[2]
    elif e[0] == "bin" and e[1].startswith("Sub"):
        a, b = e[2], e[3]
    else:
        return False
    return fld(a, "len") == ("p", 0) and fld(b, "index") == ("p", 0)


def loads(g, o, n=0):
    """(block, statement) where the operand's value is read from memory"""
    if n > 30 or o[0] not in ("c", "m"):
        return
    l, pr = o[1]
    if pr:
        return
    for bi, si, rv in g.defs.get(l, []):
        if si == "t":
            continue
        x = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "cast" else None
        if x is None or x[0] not in ("c", "m"):
            continue
        if x[1][1]:
            yield bi, si
        else:
            yield from loads(g, x, n + 1)


def maps(P, c, r):
    f = next((f for f in poly.apis(P, c) if poly.self_ty(f) == "facet_reflect::peek::map::PeekMapIter" and f.raw["item"] == "drop"), None)
    if not r.check(f is not None, "PeekMapIter::drop:exists", "nothing frees the iteration state of a map when a PeekMapIter is dropped"):
        return
    root = root_of(P, f)
    sl = slot_blocks(root, "")
    de = {bi: "d" for _, bi, s, a, _ in sl if s == "iter_vtable.dealloc" and fld(a[0], "iter") == ("p", 0)}
    out = root.g.paths(de)
    r.check(bool(de) and all(cnt == (("d", 1),) for cnt, _ in out), "PeekMapIter::drop", "dropping a PeekMapIter does not free its iteration state exactly once", root.at,
            "PeekMapIter::drop frees once")
    f = find_api(P, c, "facet_reflect::peek::map::PeekMapIter", "core::iter::traits::iterator::Iterator", "next")
    root = root_of(P, f)
    sl = slot_blocks(root, "")
    nx = {bi: "n" for _, bi, s, a, _ in sl if s == "iter_vtable.next"}
    for v in (0, 1):
        def assume(kind, a, v=v):
            if kind == "call" and a[2] in nx:
                return ("v", "Some" if v else "None", v)
            if kind == "discr":
                sc = slot_call(a[0])
                return v if sc and sc[1] == "iter_vtable.next" else None
            return None
        out = root.outcomes(root.fams[0], assume, marks=nx)
        r.check(bool(out) and all(cnt == (("n", 1),) and retv(x) == ("v", "Some" if v else "None") for cnt, x in out), "PeekMapIter::next:%d" % v,
                "PeekMapIter::next does not yield exactly what one step of the iteration yields", root.at)
    f = find_api(P, c, "facet_reflect::peek::map::PeekMap", None, "get")
    root = root_of(P, f)
    gv = {bi: "n" for _, bi, s, a, _ in slot_blocks(root, "") if s == "get_value_ptr_fn" and poly.ptr(a[1])[0] == ("p", 1)}
    for v in (0, 1):
        def assume(kind, a, v=v):
            if kind == "eq":
                return is_shape_eq(root, kind, a, True)
            if kind == "call" and a[2] in gv:
                return ("v", "Some" if v else "None", v)
            if kind == "discr":
                sc = slot_call(a[0])
                return v if sc and sc[1] == "get_value_ptr_fn" else None
            return None
        out = root.outcomes(root.fams[0], assume, marks=gv)
        r.check(bool(out) and all(cnt == (("n", 1),) and retv(x) == ("v", "Some" if v else "None") for cnt, x in out), "PeekMap::get:%d" % v,
                "PeekMap::get is not Some exactly when the map has the key", root.at)
