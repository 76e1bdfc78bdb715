"""The functions a shape's tables point to, as flow graphs with the meaning of every pointer in
terms of the table function's own parameters."""
from . import flow
from .flow import _K, walk, phi

PTRS = ("facet_core::ptr::PtrConst", "facet_core::ptr::PtrMut", "facet_core::ptr::PtrUninit")

# calls that return the pointer (or a view of the same value) they were given
SAME = {
    "core::ptr::non_null::{impl#3}::as_ptr", "core::ptr::non_null::{impl#3}::new_unchecked",
}
SAME_NAMES = (
    "NonNull::<T>::as_ptr", "NonNull::<T>::new_unchecked", "NonNull::<T>::cast", "::cast", "::cast_mut", "::cast_const",
    "NonNull::<T>::as_ref", "NonNull::<T>::as_mut", "MaybeUninit::<T>::as_mut_ptr", "MaybeUninit::<T>::as_ptr",
    "::from_ref", "::from_mut", "::byte_add", "::addr_of",
)


def fname(f):
    """resolved path of a call-site function value"""
    if not isinstance(f, dict):
        return ""
    return f.get("rname") or (f.get("res") or {}).get("name") or f.get("name") or ""


def fdef(f):
    if not isinstance(f, dict):
        return ""
    return f.get("rdef") or (f.get("res") or {}).get("def") or f.get("def") or ""


# trait methods that are the meaning of an operation: calls to them stay calls
VALUE_TRAITS = ("core::fmt::Display", "core::fmt::Debug", "core::clone::Clone", "core::default::Default", "core::cmp::PartialEq",
                "core::cmp::PartialOrd", "core::cmp::Ord", "core::hash::Hash", "core::hash::Hasher", "core::str::traits::FromStr", "core::ops::drop::Drop")


def policy(callee, f):
    return not (f and f.get("trait") in VALUE_TRAITS)


class Event:
    __slots__ = ("g", "bi", "f", "args", "fam", "fe", "_slot")

    def __init__(self, fam, bi, f, fe, args):
        self.fam, self.g, self.bi, self.f, self.fe, self.args = fam, fam.g, bi, f, fe, args

    @property
    def name(self):
        return fname(self.f)

    @property
    def trait(self):
        return (self.f or {}).get("trait") or ""

    @property
    def item(self):
        return (self.f or {}).get("item") or self.name.split("::")[-1]

    def where(self):
        return self.g.where(self.bi)


class Fam:
    """one graph plus how its parameters read in the root function's terms"""

    def __init__(self, g, sub):
        self.g = g
        self.sub = sub  # param index -> expression, or None for the root
        self._c = {}

    def res(self, e):
        """expression in root terms"""
        if self.sub is None:
            return e
        return self._res(e)

    def _res(self, e):
        if not isinstance(e, tuple):
            return e
        k = e[0]
        if k == "p":
            return self.sub.get(e[1], ("?",))
        if k in ("k", "?", "rec", "uninit", "dead"):
            return e
        i = id(e)
        if i in self._c:
            return self._c[i][1]
        g = self.g
        if k == "*":
            r = g._deref(self._res(e[1]))
        elif k == ".":
            r = g._field(self._res(e[1]), e[2], e[3], e[4])
        elif k == "ref":
            r = ("ref", self._res(e[1]))
        elif k == "call":
            f = e[1] if isinstance(e[1], dict) else self._res(e[1])
            r = ("call", f, [self._res(x) for x in e[2]], e[3])
        elif k == "phi":
            r = phi([self._res(x) for x in e[1]])
        elif k == "agg":
            r = ("agg", e[1], [self._res(x) for x in e[2]])
        elif k == "cast":
            r = ("cast", e[1], self._res(e[2]), e[3], e[4])
        elif k == "bin":
            r = ("bin", e[1], self._res(e[2]), self._res(e[3]))
        elif k in ("un",):
            r = ("un", e[1], self._res(e[2]))
        elif k in ("idx",):
            r = ("idx", self._res(e[1]), self._res(e[2]))
        elif k in ("discr", "repeat", "ci", "sub"):
            r = (k, self._res(e[1])) + tuple(e[2:])
        else:
            r = e
        self._c[i] = (e, r)
        return r


class SlotFn:
    """one table entry: the function `inst` behind slot `slot` of shape `sh` (type index `ty`)"""

    def __init__(self, M, C, sh, ty, slot, inst, table):
        self.M, self.C, self.sh, self.ty, self.slot, self.inst, self.table = M, C, sh, ty, slot, inst, table
        f = M.fn(inst)
        self.fn = f
        self.shim = f.id.startswith("core::ops::function")
        g = flow.Graph(M, f, policy, cap=20000)
        self.g = g
        self.at = g.where(g.entry)
        if self.shim and g.inlined:
            self.at = ":".join(str(g.inlined[0].raw.get("span", "?")).split(":")[:2])
        self.fams = [Fam(g, None)]
        self._events = None
        self._closures(self.fams[0], 0)

    def _closures(self, fam, depth):
        if depth > 4:
            return
        g = fam.g
        bound = {x.key for x in g.inlined}
        for bi in sorted(g.reachable()):
            t = g.blocks[bi]["t"]
            if t[0] != "call":
                continue
            args = [fam.res(g.expr(a)) for a in t[2]]
            for j, a in enumerate(args):
                x = a[1] if a[0] == "ref" else a
                inst = None
                if x[0] == "agg" and x[1][0] == "closure" and len(x[1]) > 3:
                    inst = x[1][3]
                elif x[0] == "k" and "cinst" in x[1]:
                    inst = x[1]["cinst"]
                if inst is None or inst in bound:
                    continue
                f = self.M.fn(inst)
                if f is None:
                    continue
                cg = flow.Graph(self.M, f, policy, cap=20000)
                ty0 = f.crate.types[f.body["locals"][1]]["k"]
                sub = {0: ("ref", x) if ty0 == "ref" else x}
                for k in range(1, f.body["argc"]):
                    sub[k] = ("item", ("call", _K(g.fnval(t)) if g.fnval(t) else ("?",), args, bi), j, k - 1)
                cf = Fam(cg, sub)
                self.fams.append(cf)
                self._closures(cf, depth + 1)

    def label(self):
        return "%s of %s" % (self.slot, self.C.ts(self.ty))

    # -- parameters
    def param(self, e):
        """parameter number an expression is, or None"""
        if self.shim:
            if e[0] == "." and e[1] == ("p", 1):
                return e[2]
            return None
        if e[0] == "p":
            return e[1]
        return None

    def params(self, e):
        """all parameters an expression mentions"""
        out = set()
        for x in walk(e):
            p = self.param(x)
            if p is not None:
                out.add(p)
        return out

    def origin(self, e, n=0):
        """(parameter, path) the pointer expression leads back to; path elements '*', ('f',i), ('+',expr), '&'"""
        if n > 60:
            return None
        p = self.param(e)
        if p is not None:
            return (p, ())
        k = e[0]
        if k == ".":
            o = self.origin(e[1], n + 1)
            if o is None:
                return None
            if o[1] == () and e[2] == 0 and e[4] is None:
                return o
            return (o[0], o[1] + (("f", e[2], e[4]),))
        if k == "*":
            o = self.origin(e[1], n + 1)
            return o and (o[0], o[1] + ("*",))
        if k == "ref":
            o = self.origin(e[1], n + 1)
            if o and o[1] and o[1][-1] == "*":
                return (o[0], o[1][:-1])
            return o and (o[0], o[1] + ("&",))
        if k == "cast":
            return self.origin(e[2], n + 1)
        if k == "call":
            nm = fname(e[1])
            if e[2] and (nm.endswith(SAME_NAMES)):
                o = self.origin(e[2][0], n + 1)
                if o and nm.endswith("::byte_add"):
                    return (o[0], o[1] + (("+", e[2][1]),))
                return o
            if nm.endswith(("::add", "::offset", "::wrapping_add")) and "ptr" in nm and len(e[2]) == 2:
                o = self.origin(e[2][0], n + 1)
                return o and (o[0], o[1] + (("+", e[2][1]),))
            return None
        if k == "agg" and e[1][0] == "adt" and e[1][1] in PTRS and e[2]:
            return self.origin(e[2][0], n + 1)
        return None

    # -- what happens
    def events(self):
        if self._events is None:
            out = []
            for fam in self.fams:
                g = fam.g
                for bi in sorted(g.reachable()):
                    t = g.blocks[bi]["t"]
                    if t[0] == "call":
                        f = g.fnval(t)
                        fe = None if f else fam.res(g.expr(t[1]))
                        out.append(Event(fam, bi, f, fe, [fam.res(g.expr(a)) for a in t[2]]))
            self._events = out
        return self._events

    def views(self):
        """typed views of bytes: (fam, bi, origin, pointee type index, line)"""
        out = []
        T = self.C.types
        for fam in self.fams:
            g = fam.g
            for bi in sorted(g.reachable()):
                for s in g.blocks[bi]["s"]:
                    if s[0] != "=" or s[2][0] != "cast":
                        continue
                    rv = s[2]
                    d, sr = T[rv[3]], T[rv[4]] if isinstance(rv[4], int) else None
                    if d["k"] not in ("ptr", "ref") or not sr or sr["k"] not in ("ptr", "ref"):
                        continue
                    dp, sp = d["args"][0], sr["args"][0]
                    if dp == sp or T[dp]["s"] in ("u8", "()") or T[dp]["s"] == T[sp]["s"]:
                        continue
                    if rv[1].startswith("PointerCoercion"):
                        continue
                    e = fam.res(g.expr(rv[2]))
                    out.append((fam, bi, self.origin(e), dp, s[3], e))
        for e in self.events():
            if e.item == "cast" and "ptr" in e.name and len(e.args) == 1:
                tys = [x for x in (e.f.get("rargs") or e.f.get("args") or []) if isinstance(x, int)]
                if len(tys) == 2 and T[tys[1]]["s"] not in ("u8", "()") and T[tys[0]]["s"] != T[tys[1]]["s"]:
                    out.append((e.fam, e.bi, self.origin(e.args[0]), tys[1], None, e.args[0]))
        return out

    def base(self, e, n=0):
        """parameters whose memory a pointer points into (offsets and sizes do not count)"""
        if n > 80:
            return set()
        p = self.param(e)
        if p is not None:
            return {p}
        k = e[0]
        if k == "call":
            it = fname(e[1]).split("::")[-1]
            if it.startswith(("with_capacity", "new", "uninit", "len", "alloc")) and it not in ("new_unchecked",):
                return set()
            if it in ("next", "next_back", "zip", "enumerate"):
                return self.src(e)
            return self.base(e[2][0], n + 1) if e[2] else set()
        if k in ("*", "ref", "."):
            if k == "." and e[1][0] in (".", "call", "item"):
                return {x for x in self.src(e) if x in self.base(e[1], n + 1)}
            return self.base(e[1], n + 1)
        if k == "cast":
            return self.base(e[2], n + 1)
        if k == "phi":
            return set().union(*[self.base(x, n + 1) for x in e[1]])
        if k == "agg":
            return self.base(e[2][0], n + 1) if e[2] else set()
        if k == "item":
            return self.src(e)
        return set()

    # -- constants
    def ceval(self, e, n=0):
        C = self.C
        if n > 40:
            return None
        if e[0] == "k":
            return e[1].get("val")
        if e[0] == "*":
            return self.ceval(e[1], n + 1)
        if e[0] == "ref":
            return self.ceval(e[1], n + 1)
        if e[0] == ".":
            v = C.deref(self.ceval(e[1], n + 1))
            if isinstance(v, dict) and "f" in v:
                return v["f"].get(e[3] if e[3] is not None else str(e[2]))
            return None
        if e[0] == "cast":
            return self.ceval(e[2], n + 1)
        return None

    def elem_slot(self, fe):
        """callee expression -> (shape value, slot name) when it reads a slot of a known shape's vtable"""
        e = fe
        n = 0
        while e is not None and n < 20:
            n += 1
            if e[0] == "." and e[4] == "Some":
                e = e[1]
            elif e[0] == "*":
                e = e[1]
            elif e[0] == "ref":
                e = e[1]
            elif e[0] == "call" and fname(e[1]).endswith(("unwrap_unchecked", "::unwrap", "::expect")) and e[2]:
                e = e[2][0]
            elif e[0] == "." and e[3]:
                name = e[3]
                v = e[1]
                m = 0
                while v[0] in ("*", "ref") and m < 10:
                    v = v[1]
                    m += 1
                if v[0] == "." and v[3] == "vtable":
                    sh = self.C.shape_adt(self.ceval(v[1]))
                    if sh is not None:
                        return sh, name
                return None
            else:
                return None
        return None

    def tagged(self, e):
        """PtrX built from a typed pointer: (pointee type index, the typed pointer expression)"""
        n = 0
        while n < 20:
            n += 1
            if e[0] == "agg" and e[1][0] == "adt" and e[1][1] in PTRS and e[2]:
                e = e[2][0]
            elif e[0] == "agg" and e[1][0] == "adt" and e[1][1].endswith("NonNull") and e[2]:
                e = e[2][0]
            elif e[0] == "call" and fname(e[1]).endswith(SAME_NAMES) and e[2]:
                e = e[2][0]
            elif e[0] == "cast":
                cr, dt = e[3]
                T = self.C.types
                d = T[dt] if isinstance(dt, int) else None
                s = T[e[4]] if isinstance(e[4], int) else None
                if d and s and d["k"] in ("ptr", "ref") and s["k"] in ("ptr", "ref"):
                    dp, sp = T[d["args"][0]], T[s["args"][0]]
                    if dp["s"] in ("u8", "()") and sp["s"] not in ("u8", "()"):
                        return s["args"][0], e[2]
                    if dp["s"] in ("u8",) and sp["s"] == "u8":
                        e = e[2]
                        continue
                e = e[2]
            else:
                return None
        return None

    # -- where a value comes from, following iterators component-wise
    def src(self, e, proj=(), n=0):
        if n > 80:
            return self.params(e)
        p = self.param(e)
        if p is not None:
            return {p}
        k = e[0]
        if k == ".":
            return self.src(e[1], (e[2],) + proj if e[1][0] in (".", "call", "item", "phi", "agg", "*", "ref") else proj, n + 1)
        if k in ("*", "ref"):
            return self.src(e[1], proj, n + 1)
        if k == "cast":
            return self.src(e[2], proj, n + 1)
        if k == "phi":
            out = set()
            for x in e[1]:
                out |= self.src(x, proj, n + 1)
            return out
        if k == "agg":
            if e[1][0] == "adt" and e[1][1] in PTRS and e[2]:
                return self.src(e[2][0], (), n + 1)
            if proj and isinstance(proj[0], int) and proj[0] < len(e[2]):
                return self.src(e[2][proj[0]], proj[1:], n + 1)
            out = set()
            for x in e[2]:
                out |= self.src(x, (), n + 1)
            return out
        if k == "item":
            call, j, i = e[1], e[2], e[3]
            nm = fname(call[1])
            if nm.endswith(("::fold", "::try_fold")):
                if i == 0:
                    return self.params(call)
            elif i > 0:
                return self.params(call)
            return self.src(call[2][0], proj, n + 1) if call[2] and j > 0 else self.params(call)
        if k == "call":
            nm = fname(e[1])
            it = nm.split("::")[-1]
            if it == "next" or it == "next_back":
                return self.src(e[2][0], proj[1:], n + 1)
            if it == "zip" and len(e[2]) == 2:
                if proj and proj[0] in (0, 1):
                    return self.src(e[2][proj[0]], proj[1:], n + 1)
                return self.src(e[2][0], (), n + 1) | self.src(e[2][1], (), n + 1)
            if it == "enumerate":
                if proj and proj[0] == 0:
                    return set()
                return self.src(e[2][0], proj[1:], n + 1)
            if it in ("iter", "into_iter", "iter_mut", "by_ref", "deref", "deref_mut", "as_slice", "as_ref", "cloned", "copied",
                      "as_ptr", "new_unchecked", "as_mut_ptr", "borrow", "peekable") and e[2]:
                return self.src(e[2][0], proj, n + 1)
            out = set()
            for x in e[2]:
                out |= self.src(x, (), n + 1)
            return out
        return self.params(e)


def tables(C):
    """(shape value, type index, table name, table value) for every table of every shape"""
    for k, sh in C.shapes():
        ty = C.id_type(sh)
        if ty is None:
            continue
        yield sh, ty, "value", C.deref(C.f(sh, "vtable"))
        d = C.deref(C.f(sh, "def"))
        dk = C.var(d)
        if dk in ("List", "Map", "Array", "Slice", "Option", "SmartPointer"):
            dv = C.deref(C.f(d, "0"))
            vt = C.deref(C.f(dv, "vtable"))
            if isinstance(vt, dict) and "f" in vt:
                yield sh, ty, dk, vt
                if dk == "Map":
                    iv = C.deref(vt["f"].get("iter_vtable"))
                    if isinstance(iv, dict) and "f" in iv:
                        yield sh, ty, "MapIter", iv


_slots = {}


def slots(fx, C):
    """every table function of the corpus, once per (function, type)"""
    if fx.key in _slots:
        return _slots[fx.key]
    M = flow.MonoProgram(fx)
    out = []
    seen = set()
    for sh, ty, table, vt in tables(C):
        for name, v in vt["f"].items():
            fp = C.opt(v) or C.deref(v)
            if not (isinstance(fp, dict) and "inst" in fp):
                continue
            key = (fp["inst"], C.ts(ty), table, name)
            if key in seen or M.fn(fp["inst"]) is None:
                continue
            seen.add(key)
            out.append(SlotFn(M, C, sh, ty, name, fp["inst"], table))
    _slots[fx.key] = out
    return out
