"""facet-reflect's building side: Wip, its frames, and the values it builds on the heap."""
from . import flow, vt, poly
from .flow import walk
from .vt import fname
from .poly import bare, fld, item_of
from .c_peek import aggs, calls, label, live, accessor, adt

W = "facet_reflect::wip::"
WIP, FRAME, ISTATE, MODE, FLAGS = W + "Wip", W + "Frame", W + "IState", W + "FrameMode", W + "FrameFlags"
HEAP, GUARD, ISET = W + "heap_value::HeapValue", W + "heap_value::Guard", W + "iset::ISet"
PEEK, VID = "facet_reflect::peek::value::Peek", "facet_reflect::peek::value::ValueId"
_c = {}


class Prog:
    def __init__(self, fx):
        self.P = flow.PolyProgram(fx, ["facet_core", "facet_reflect"])
        self.c = fx.crate("facet_reflect")
        self.fx = fx
        self._roots = {}
        self._keeps = {}
        self.modes = {v["name"]: int(v["discr"]) for v in adt(fx, "facet_reflect", MODE)["variants"]}
        self.defs = {v["name"]: int(v["discr"]) for v in adt(fx, "facet_core", "facet_core::types::Def")["variants"]}
        self.reprs = {v["name"]: int(v["discr"]) for v in adt(fx, "facet_core", "facet_core::types::enum_::EnumRepr")["variants"]}
        self.cleaners = self._cleaners()

    def policy(self, callee, f):
        s = poly.self_ty(callee) or ""
        if callee.id in self.cleaners:
            return False
        if s == WIP and callee.raw.get("pub") and not self.reads_only(callee) and not self.takes_frame(callee):
            return False
        if s in (ISET, FLAGS) or s.endswith("::FlatMap"):
            return False
        if "::peek::" in s and callee.raw.get("pub") and not callee.raw.get("unsafe"):
            return False
        return vt.policy(callee, f)

    def argty(self, fn, i):
        t = fn.body["locals"][i + 1] if i < fn.body["argc"] else None
        return fn.crate.types[t] if isinstance(t, int) else {}

    def reads_only(self, fn):
        t = self.argty(fn, 0)
        return t.get("k") == "ref" and "Wip<" in t["s"] and not t["s"].startswith("&mut")

    def takes_frame(self, fn):
        return any(self.argty(fn, i).get("def") == FRAME for i in range(fn.body["argc"]))

    def _cleaners(self):
        """functions that give up a frame and everything in it: they call themselves for what the frame is made of, and drop"""
        out = set()
        self.cleaners = out
        for f in self.P.fns.values():
            if f.crate is self.c and f.id.startswith(W) and self.takes_frame(f) and f.raw.get("kind") in ("Fn", "AssocFn"):
                g = flow.Graph(self.P, f, self.policy, cap=60000)
                own = any(t.key == f.key for _, t in g.skipped)
                if own and any(o[0] == "." and o[3] == "drop_in_place" for b in g.blocks if b["t"][0] == "switch" or b["t"][0] == "call"
                               for o in walk(g.expr(b["t"][1]))):
                    out.add(f.id)
        return out

    def root(self, f):
        if f.id not in self._roots:
            self._roots[f.id] = Fn(self, f)
        return self._roots[f.id]

    def roots(self):
        """everything code outside the module can call or trigger, and the cleaners"""
        for f in sorted(self.P.fns.values(), key=lambda f: f.id):
            if f.crate is not self.c or not f.id.startswith(W) or f.raw.get("kind") not in ("Fn", "AssocFn") or f.raw.get("macro"):
                continue
            s = poly.self_ty(f) or ""
            if s in (ISET, FLAGS) or s.endswith("::FlatMap"):
                continue
            if f.id in self.cleaners or f.raw.get("reach") or poly.trait_of(f):
                yield self.root(f)

    def keeps_frames(self, fn):
        """does the function leave the stack of frames as it was?"""
        if fn.id not in self._keeps:
            self._keeps[fn.id] = False
            r = self.root(fn)
            self._keeps[fn.id] = not r.mutators(0)
        return self._keeps[fn.id]

    def pushes_one(self, fn):
        """does the function, when it succeeds, leave exactly one more frame on the stack?"""
        if (fn.id, 1) not in self._keeps:
            r = self.root(fn)
            m = {b: "push" for b in r.mutators(0)}
            ok = bool(m) and all(item_of(r.g.fnval(r.g.blocks[b]["t"])) == "push" for b in m)
            if ok:
                outs = {(c, v) for c, v in r.g.paths(m)}
                good = [c for c, v in outs if not (isinstance(v, tuple) and v[1] == "Err")]
                ok = bool(good) and all(c is not None and dict(c)["push"] == 1 for c in good)
            self._keeps[(fn.id, 1)] = ok
        return self._keeps[(fn.id, 1)]

    def callee(self, f, crate):
        return self.P.resolve(f, crate) if isinstance(f, dict) else None


QUIET = ("last", "last_mut", "get", "get_mut", "first", "first_mut", "iter", "iter_mut", "len", "is_empty", "deref", "deref_mut", "index", "index_mut",
         "as_slice", "as_mut_slice", "split_last", "split_last_mut")


class Fn(poly.Root):
    def __init__(self, prog, f):
        self.prog = prog
        super().__init__(prog.P, f, prog.policy, cap=60000)
        self.name = label(f)
        self._mut = {}
        self._ver = {}

    # -- the stack of frames
    def mutators(self, fi):
        """blocks of family fi whose call changes which frames are on the stack"""
        if fi in self._mut:
            return self._mut[fi]
        fam = self.fams[fi]
        g = fam.g
        out = set()
        for bi in sorted(g.reachable()):
            t = g.blocks[bi]["t"]
            if t[0] != "call":
                continue
            f = g.fnval(t)
            args = [fam.res(g.expr(a)) for a in t[2]]
            if any(fld(x, "frames") is not None for a in args for x in flat(a)) and item_of(f) not in QUIET:
                out.add(bi)
                continue
            c = self.prog.callee(f, g.blocks[bi]["fn"].crate)
            if c is not None and poly.self_ty(c) == WIP and not self.prog.reads_only(c) and c.key != self.fn.key and c.id not in self.prog.cleaners:
                if not self.prog.keeps_frames(c):
                    out.add(bi)
        self._mut[fi] = out
        return out

    def version(self, fam, bi):
        """which changes to the stack may have been the last one when control is in block bi"""
        fi = self.fams.index(fam)
        if fi not in self._ver:
            g = fam.g
            mut = self.mutators(fi)
            inn = {b: set() for b in g.reachable()}
            inn[g.entry] = {-1}
            todo = [g.entry]
            while todo:
                b = todo.pop()
                out = {b} if b in mut else inn[b]
                for s in g.succs(b):
                    if s is not None and not out <= inn[s]:
                        inn[s] |= out
                        todo.append(s)
            self._ver[fi] = {b: frozenset(v) for b, v in inn.items()}
        return self._ver[fi].get(bi, frozenset())

    def wip(self, e):
        """the builder an expression denotes, whichever stack-preserving operations it went through"""
        out = set()
        todo = [e]
        n = 0
        while todo and n < 60:
            n += 1
            x = bare(todo.pop())
            if x[0] == "phi":
                todo += x[1]
                continue
            if x[0] == "rec":
                continue
            f, a = self.built_by(x)
            if f is not None and self.prog.keeps_frames(f):
                todo.append(a[0])
                continue
            if f is not None and f.raw.get("item") == "pop":
                y = bare(a[0])
                while True:
                    if y[0] == "rec":
                        break
                    f2, a2 = self.built_by(y)
                    if f2 is None or not self.prog.keeps_frames(f2):
                        break
                    y = bare(a2[0])
                if y[0] == "rec":
                    continue
                if f2 is not None and self.prog.pushes_one(f2):
                    todo.append(a2[0])
                    continue
            out.add(self.canon(x))
        return frozenset(out)

    def built_by(self, x):
        """(Wip method, arguments) when x is the builder a call of that method gave back"""
        if x[0] == "." and x[4] in ("Ok", "Some", "Continue"):
            x = bare(x[1])
        if x[0] == "call" and isinstance(x[1], dict) and x[2]:
            f = self.prog.callee(x[1], self.prog.c)
            if f is not None and poly.self_ty(f) == WIP and not self.prog.reads_only(f) and "Wip<" in self.prog.argty(f, 0).get("s", ""):
                return f, x[2]
        return None, None

    def fkey(self, fam, e):
        """identity of the frame (or id, peek, heap value) an expression denotes"""
        x = bare(e)
        if x[0] == "." and x[4] == "Some":
            c = bare(x[1])
            if c[0] == "call" and item_of(c[1]) in ("last", "last_mut"):
                v = frames_of(c[2][0]) if c[2] else None
                if v is not None:
                    return ("top", self.wip(v), self.version(fam, c[3]))
        if x[0] == "call" and item_of(x[1]) in ("index", "index_mut") and len(x[2]) == 2:
            v = frames_of(x[2][0])
            if v is not None:
                return ("at", self.wip(v), self.canon(x[2][1]), self.version(fam, x[3]))
        t = took(self, x)
        if t is not None:
            return ("taken", t[1])
        return ("e", self.canon(x))

    # -- addresses and shapes
    def place(self, fam, e):
        """{what an address is}: ('own', key) of a frame/id/peek, ('field', base, field), ('new', shape), ('heap', owner), ('param', i)"""
        base, off = poly.ptr(e)
        out = set()
        for b in flat(base):
            b, o2 = poly.ptr(b)
            o = off if off is not None else o2
            for b in flat(b):
                k = self._base(fam, bare(b))
                if o is not None and k is not None:
                    Fs = [fld(x, "offset") for x in flat(o)]
                    k = ("field", k, frozenset().union(*[self.fieldkey(fam, F) for F in Fs])) if all(F is not None for F in Fs) else None
                out.add(k)
        return out

    def _base(self, fam, b):
        x = fld(b, "data")
        if x is not None:
            return ("own", self.fkey(fam, x))
        x = fld(b, "ptr")
        if x is not None:
            h = [bare(y[1]) for y in walk(x) if y[0] == "." and y[3] == "guard"]
            if h:
                return ("heap", self.canon(h[0]), _E(h[0])) if all(self.same(y, h[0]) for y in h) else None
            return ("own", self.fkey(fam, x))
        if b[0] == "call":
            it = item_of(b[1])
            L = b[2][0] if b[2] else None
            if it == "without_provenance_mut" and L is not None:
                c = bare(L)
                L = c[2][0] if c[0] == "call" and item_of(c[1]) == "align" else None
            elif it not in ("alloc", "alloc_zeroed"):
                L = None
            S = fld(L, "layout") if L is not None else None
            if S is not None:
                return ("new", self.shape1(fam, S))
        if b[0] == "p":
            return ("param", b[1])
        if b[0] == "*":
            return self._base(fam, bare(b))
        return None

    def slicekey(self, fam, sl):
        """identity of a list of fields: by the frame whose shape lists them when it is one's"""
        d = fld(sl, "fields")
        if d is not None and d[0] == "." and d[4] == "Struct":
            o = fld(d[1], "def")
            o = fld(o, "shape") if o is not None else None
            if o is not None:
                k = self.fkey(fam, o)
                if k[0] != "e":
                    return ("fields of",) + k
        return self.canon(sl)

    def fieldkey(self, fam, F):
        ks = []
        for f in flat(F):
            i = poly.elem(self, f)
            if i is not None and i[0] is not None:
                s = poly.slice_of(self, f)
                for sl in flat(s):
                    ks.append((self.slicekey(fam, sl), i[1]))
            else:
                ks.append((None, self.canon(f)))
        return frozenset(ks)

    def shape1(self, fam, e):
        """what a shape is the shape of"""
        e = bare(e)
        a = accessor(e, ("shape", "t", "k", "v", "pointee"))
        if e[0] == "call" and not isinstance(e[1], dict) and not e[2]:
            As = [accessor(("call", x, [], e[3]), ("shape",)) for x in flat(e[1])]
            if As and all(As):
                return ("field", frozenset().union(*[self.fieldkey(fam, x[1]) for x in As]))
        if a and a[0] == "shape":
            return ("own", self.fkey(fam, a[1]))
        if a:
            return (a[0], self.canon(a[1]))
        if e[0] == "p":
            return ("param", e[1])
        T = poly.type_shape(self, e)
        if T:
            return ("T", T)
        return ("e", self.canon(e))

    def shapes(self, fam, e):
        return {self.shape1(fam, x) for x in flat(e)}

    def fits(self, fam, data, shape):
        """(ok, what): is the value at `data` one of shape `shape`?"""
        ds, ss = self.place(fam, data), self.shapes(fam, shape)
        if None in ds:
            return False, "an address whose origin is not recognised"
        if len(ss) != 1:
            return False, "one of several shapes"
        s = next(iter(ss))
        for d in ds:
            k = d[0]
            if k == "own" and s == d:
                continue
            if k == "heap" and s == ("own", ("e", d[1])):
                continue
            if k == "new" and d[1] == s:
                continue
            if k == "param" and s[0] == "param" and self.fn.raw.get("unsafe"):
                continue
            if k == "field" and s[0] == "field":
                if d[2] != s[1]:
                    return False, "the offset of one field with the shape of another"
                ok, what = self.fields_tied(fam, shape, d[1])
                if ok:
                    continue
                return False, what
            return False, {"own": "the address of one value with another shape", "new": "memory allocated for one shape with another",
                           "field": "a field's address with a shape that is not that field's", "heap": "a heap value's memory with another shape",
                           "param": "an address given by the caller"}[k]
        return True, "/".join(sorted({{"own": "a value's own address and shape", "heap": "a heap value's memory and shape", "new": "memory and the shape it was allocated for",
                                       "param": "what the caller vouches for", "field": "address and shape of the same field"}[d[0]] for d in ds}))

    def fields_tied(self, fam, shape, base):
        """do the fields come from the definition of the value they are fields of?"""
        owners = set()
        for e in flat(shape):
            e = bare(e)
            for x in flat(e[1]) if e[0] == "call" and not isinstance(e[1], dict) and not e[2] else [e]:
                a = accessor(("call", x, [], 0), ("shape",)) or accessor(x, ("shape",))
                for F in flat(a[1]) if a else []:
                    sl = poly.slice_of(self, F)
                    owners |= {self.slice_owner(fam, y) for y in flat(sl) if const(y) is None} if sl is not None else {None}
        want = {base}
        if base[0] == "heap":
            want |= self.heap_shape(fam, base[2])
        if not owners or any(o not in want for o in owners):
            return False, "a field of another definition than the value's"
        return True, ""

    def slice_owner(self, fam, sl):
        """whose definition lists the fields of a slice"""
        d = fld(sl, "fields")
        if d is None:
            return None
        v = fld(d, "data")
        if v is None:
            return self.owner_of_def(fam, d[1]) if d[0] == "." and d[4] == "Struct" else None
        out = set()
        for y in flat(v):  # the selected variant's
            y = bare(y)
            while y[0] == "." and y[4] == "Some":
                y = bare(y[1])
            o = fld(y, "variant")
            out |= self.state_owner(fam, o) if o is not None else {None}
        return next(iter(out)) if len(out) == 1 else None

    def state_owner(self, fam, e):
        """whose bookkeeping an expression is: keys as of place(), 'new' for fresh bookkeeping, None if not recognised"""
        out = set()
        for x in flat(e):
            x = bare(x)
            o = fld(x, "istate")
            if o is not None:
                out.add(("own", self.fkey(fam, o)))
                continue
            if x[0] == "agg" and x[1][0] == "adt" and x[1][1] == ISTATE:
                out.add("new")
                continue
            if x[0] == "." and x[4] == "Some":
                x = bare(x[1])
            if x[0] == "call":
                it = item_of(x[1])
                if it in ("clone", "cloned", "replace", "take", "unwrap", "expect") and x[2]:
                    out |= self.state_owner(fam, x[2][0])
                    continue
                if it in ("remove", "get", "get_mut") and len(x[2]) == 2 and fld(x[2][0], "istates") is not None:
                    for k in flat(x[2][1]):
                        k = bare(k)
                        if k[0] == "agg":
                            out |= self.place(fam, k[2][list(k[1][3]).index("ptr")] if isinstance(k[1][3], (list, tuple)) else k[2][1])
                        else:
                            out.add(("own", self.fkey(fam, k)))
                    continue
            out.add(None)
        return out

    def heap_shape(self, fam, h):
        """shape keys of a heap value that was just built"""
        x = bare(h)
        if x[0] == "." and x[4] == "Ok":
            x = bare(x[1])
        if x[0] != "call" or item_of(x[1]) != "build":
            return set()
        w = bare(x[2][0])
        for _ in range(10):
            f, a = self.built_by(w)
            if f is None or not self.prog.keeps_frames(f):
                break
            w = bare(a[0])
        if w[0] == "call" and item_of(w[1]) == "alloc_shape":
            return self.shapes(fam, w[2][0])
        return set()

    def owner_of_def(self, fam, d):
        o = fld(d, "def")
        if o is None:
            return None
        return self.shape1(fam, o)


class _E(tuple):
    """an expression carried along in a key without being part of it"""
    def __eq__(self, o):
        return isinstance(o, _E)

    def __hash__(self):
        return 7


def const(e):
    """the constant an expression is, or None"""
    e = bare(e)
    while e[0] == "cast":
        e = bare(e[2])
    return e[1] if e[0] == "k" else None


def frames_of(e):
    """the builder whose stack of frames an expression denotes, or None"""
    out = []
    for x in flat(e):
        y = bare(x)
        if y[0] == "call" and item_of(y[1]) in ("deref", "deref_mut", "as_slice", "as_mut_slice") and y[2]:
            v = frames_of(y[2][0])
        else:
            v = fld(y, "frames")
        if v is None:
            return None
        out.append(v)
    return (out[0] if len(out) == 1 else ("phi", out)) if out else None


def flat(e):
    """components of a joined value that executions can produce"""
    out = []
    todo = [e]
    while todo:
        x = todo.pop()
        y = bare(x)
        if y[0] == "phi":
            todo += y[1]
            continue
        z = y
        while z[0] == "." and z[1][0] != "p":
            z = bare(z[1])
        if z[0] in ("dead", "uninit", "rec") or (z[0] == "k" and y[0] != "k"):
            continue
        out.append(x)
    return out


def program(fx):
    if "p" not in _c:
        _c["p"] = Prog(fx)
    return _c["p"]


# ---------------------------------------------------------------- C16
SAFE = {"drop_in_place": (0,), "default_in_place": (0,), "clone_into": (0, 1), "parse": (1,), "eq": (0, 1), "partial_ord": (0, 1), "ord": (0, 1),
        "debug": (0,), "display": (0,), "hash": (0,), "invariants": (0,), "marker_traits": ()}
TABLES = {"init_some_fn": ("Option", 0, ((1, "t"),)), "push": ("List", 0, ((1, "t"),)), "insert_fn": ("Map", 0, ((1, "k"), (2, "v")))}
ELEMS = {"t": "t", "k": "k", "v": "v"}


def slot(e):
    """(kind, owner expression, slot name, table kind) of a function taken out of a shape's tables"""
    x = bare(e)
    while x[0] == "." and x[4] == "Some":
        x = bare(x[1])
    if x[0] != "." or x[3] is None:
        return None
    name, t = x[3], bare(x[1])
    if t[0] != "." or t[3] != "vtable":
        return None
    o = bare(t[1])
    if o[0] == "." and o[4] is not None and o[3] in (None, "0"):
        return ("def", o, name, o[4])
    return ("value", o, name, None)


def unreachable_unless(rt, fam, bi, given, wrong):
    """block bi of fam can't be entered under any of the assumptions"""
    return all(not rt.enters(fam, bi, w) for w in wrong)


def mode_is(rt, fam, bi, F, mode):
    """is block bi only entered when frame F has the given mode?"""
    key = rt.canon(F)

    def other(m):
        def assume(kind, a):
            if kind == "discr":
                x = fld(a[0], "mode")
                x = fld(x, "istate") if x is not None else None
                if x is not None and rt.canon(x) == key:
                    return m
            if kind == "eq":
                for u, w in (a, a[::-1]):
                    x = fld(u, "mode")
                    x = fld(x, "istate") if x is not None else None
                    if x is not None and rt.canon(x) == key:
                        n = mode_const(w)
                        if n is not None:
                            return rt.prog.modes[n] == m
            return None
        return assume
    return all(not rt.enters(fam, bi, other(m)) for n, m in rt.prog.modes.items() if n != mode)


def mode_const(e):
    e = bare(e)
    if e[0] == "agg" and e[1][0] == "adt" and e[1][1] == MODE:
        return e[1][2]
    return None


def shapes_equal(rt, fam, bi, a, b):
    """is block bi only entered when the two shapes are equal?"""
    def assume(kind, x):
        if kind == "eq" and {rt.canon(x[0]), rt.canon(x[1])} == {a, b}:
            return False
        return None
    return not rt.enters(fam, bi, assume)


def own_shape_equals(rt, fam, bi, data, shape):
    """is block bi only entered when the shape of the frame or heap value at `data` equals `shape`?"""
    ks = rt.place(fam, data)
    if len(ks) != 1:
        return False
    k = next(iter(ks))
    if k is None or k[0] not in ("own", "heap"):
        return False
    cs = rt.canon(shape)

    def owns(e):
        o = fld(e, "shape")
        return o is not None and (rt.canon(o) == k[1] if k[0] == "heap" else rt.fkey(fam, o) == k[1])

    def assume(kind, x):
        if kind == "eq" and any(owns(u) and rt.canon(w) == cs for u, w in (x, x[::-1])):
            return False
        return None
    return not rt.enters(fam, bi, assume)


def c16(fx, r):
    p = program(fx)
    r.rule("every address that the builder pairs with a shape, or hands to a function of a shape's tables, is the address of a value of that shape: "
           "a frame's own, a field's at its offset, memory allocated for it, a heap value's; elements go into the container their frame was pushed for; "
           "raw copies only happen between equal shapes")
    for rt in p.roots():
        for fam, bi, ty, v, line in aggs(rt, {FRAME, VID, PEEK}):
            data = v.get("data", v.get("ptr"))
            ok, what = rt.fits(fam, data, v["shape"])
            nm = ty.split("::")[-1]
            r.count("addresses paired with a shape")
            at = fam.g.where(bi, line)
            r.check(ok, "%s:%s" % (rt.name, nm), "%s builds a %s from %s" % (rt.name, nm, what), at, "%s: %s" % (rt.name, what))
            if ty == FRAME:
                own = rt.state_owner(fam, v["istate"]) - {"new"}
                r.check(own <= rt.place(fam, data), rt.name + ":istate", "%s gives a frame the bookkeeping of another value" % rt.name, at)
        for fam, bi, v, line in heap_values(rt):
            ok, what = v
            r.count("heap values")
            r.check(ok, rt.name + ":HeapValue", "%s builds a HeapValue from %s" % (rt.name, what), fam.g.where(bi, line))
        for fam, bi, pl, line in stores(rt):
            if pl[0] == "." and pl[3] in ("data", "shape", "ptr") and type_of(pl) in (FRAME, VID, HEAP, GUARD):
                r.bad("%s:%s changed" % (rt.name, pl[3]), "%s changes the %s of a frame or value without the rest" % (rt.name, pl[3]), fam.g.where(bi, line))
        for fam, bi, f, args in calls(rt):
            at = fam.g.where(bi)
            if isinstance(f, dict):
                typed_call(rt, r, fam, bi, f, args, at)
            else:
                table_call(rt, r, fam, bi, f, args, at)
        pushes(rt, r)
    r.floor("addresses paired with a shape", 30)
    r.floor("table calls", 20)
    r.floor("frames pushed", 6)


def stores(rt):
    """(fam, block, place expression, line) of every assignment to a part of something"""
    for fam in rt.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            for s in g.blocks[bi]["s"]:
                if s[0] == "=" and s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f":
                    pr = s[1][1][-1]
                    base = fam.res(g.place_expr([s[1][0], s[1][1][:-1]]))
                    yield fam, bi, (".", base, pr[1], pr[2], pr[3] if len(pr) > 3 else None), s[3]


def type_of(pl):
    return pl[4]


def heap_values(rt):
    for fam, bi, ty, v, line in aggs(rt, {HEAP}):
        g = [x for x in walk(v["guard"]) if x[0] == "agg" and x[1][0] == "adt" and x[1][1] == GUARD]
        if len(g) != 1:
            yield fam, bi, (False, "memory whose origin is not recognised"), line
            continue
        names = list(g[0][1][3])
        ptr, layout = g[0][2][names.index("ptr")], g[0][2][names.index("layout")]
        ok, what = rt.fits(fam, ptr, v["shape"])
        if ok:
            L = fld(layout, "layout")
            ok = L is not None and rt.shapes(fam, L) == rt.shapes(fam, v["shape"])
            what = what if ok else "memory and the layout of another shape"
        yield fam, bi, (ok, what), line


def table_call(rt, r, fam, bi, f, args, at):
    s = slot(f)
    if s is None:
        x = bare(f)
        if x[0] == "." and x[3] in ("t", "k", "v", "shape", "pointee") and not args:
            return
        if x[0] == "p" and rt.fn.raw.get("unsafe"):
            return
        if not any(rt.place(fam, a) - {None} for a in args if is_ptr(rt, a)):
            return
        r.bad(rt.name + ":unknown function", "%s hands memory to a function whose origin is not recognised" % rt.name, at)
        return
    kind, owner, name, dk = s
    r.count("table calls")
    if kind == "value":
        if name not in SAFE:
            r.bad("%s:%s" % (rt.name, name), "%s calls `%s` on memory, whose meaning is not known" % (rt.name, name), at)
            return
        for i in SAFE[name]:
            ok, what = rt.fits(fam, args[i], owner)
            if not ok and own_shape_equals(rt, fam, bi, args[i], owner):
                ok, what = True, "a value of an equal shape"
            r.check(ok, "%s:%s" % (rt.name, name), "%s calls `%s` of a shape on %s" % (rt.name, name, what), at, "%s: `%s` on %s" % (rt.name, name, what))
        return
    if name not in TABLES or TABLES[name][0] != dk:
        r.bad("%s:%s" % (rt.name, name), "%s calls `%s` of a %s's table, whose meaning is not known" % (rt.name, name, dk), at)
        return
    S = fld(bare(owner)[1], "def")
    ok, what = rt.fits(fam, args[0], S) if S is not None else (False, "a definition whose origin is not recognised")
    r.check(ok, "%s:%s" % (rt.name, name), "%s calls `%s` of a shape on %s" % (rt.name, name, what), at, "%s: `%s` on %s" % (rt.name, name, what))
    for i, el in TABLES[name][2]:
        ok, what = element(rt, fam, bi, args[i], owner, el)
        r.check(ok, "%s:%s:%s" % (rt.name, name, el), "%s hands `%s` %s" % (rt.name, name, what), at, "%s: `%s` gets %s" % (rt.name, name, what))


def is_ptr(rt, a):
    x = bare(a)
    return x[0] in (".", "agg") and bool(poly.ptr(a))


MODES = {("Option", "t"): "OptionSome", ("List", "t"): "ListElement", ("Map", "v"): "MapValue"}


def element(rt, fam, bi, src, D, el):
    """is the value at src one of D's elements?"""
    dk = bare(D)[4]
    base, off = poly.ptr(src)
    bs = [bare(poly.ptr(b)[0]) for b in flat(base)]
    if off is not None or len(bs) != 1:
        return False, "an address whose origin is not recognised"
    b = bs[0]
    if b[0] == "p":
        # the caller's value: its shape was compared with the element's
        for x in range(rt.fn.body["argc"]):
            for n in D_shapes(rt, D, el):
                if shapes_equal(rt, fam, bi, rt.canon(("p", x)), n):
                    return True, "the caller's value, whose shape is the element's"
        return False, "the caller's value without its shape being the element's"
    F = fld(b, "data")
    if F is None:
        return False, "a value that is no frame's"
    top = fld(fld(bare(D)[1], "def") or ("?",), "shape")
    tk = rt.fkey(fam, top) if top is not None else None
    if tk is None or tk[0] != "top":
        return False, "a frame's value with the table of something that is not on the stack"
    taken = took(rt, F)
    if taken is None:
        return False, "the value of a frame that is still on the stack"
    if el == "k":
        it, blk, idx = taken
        V = idx
        x = bare(V) if V is not None else None
        if it != "remove" or x is None or x[0] != "." or x[4] != "MapValue":
            return False, "a key that is not the one the value was pushed for"
        m = fld(fld(x, x[3]) or bare(x[1]), "istate") if bare(x[1])[0] != "." else None
        M = bare(x[1])
        Fv = fld(M, "istate") if M[3] == "istate" else (fld(bare(M[1]), "istate") if M[3] == "mode" else None)
        if Fv is None or took(rt, Fv) is None or not mode_is(rt, fam, bi, Fv, "MapValue"):
            return False, "a key that is not the one the value was pushed for"
        if tk[2] != frozenset({blk}):
            return False, "a key and the table of another frame than the one below it"
        return True, "the key its value was pushed for"
    want = MODES[(dk, el)]
    if not mode_is(rt, fam, bi, F, want):
        return False, "the value of a frame that wasn't pushed as one of its elements"
    if dk != "Map" and tk[2] != frozenset({taken[1]}):
        return False, "an element and the table of another frame than the one below it"
    return True, "the value of a frame that was pushed as one of its elements"


def D_shapes(rt, D, el):
    """canonical forms of D's element shape"""
    out = [rt.canon((".", D, None, el, None))]
    for fam in rt.fams:
        for bi in fam.g.reachable():
            t = fam.g.blocks[bi]["t"]
            if t[0] == "call" and not t[2] and fam.g.fnval(t) is None:
                e = fam.res(fam.g.expr(t[1]))
                x = bare(e)
                if x[0] == "." and x[3] == el and rt.same(x[1], D):
                    out.append(rt.canon(("call", e, [], bi)))
    return out


def took(rt, F):
    """(how, block, index) if frame F was taken off the stack"""
    x = bare(F)
    if x[0] == "." and x[4] == "Some":
        x = bare(x[1])
    if x[0] == "call" and item_of(x[1]) in ("pop", "remove", "swap_remove") and x[2] and frames_of(x[2][0]) is not None:
        return item_of(x[1]), x[3], (x[2][1] if len(x[2]) > 1 else None)
    return None


def typed_call(rt, r, fam, bi, f, args, at):
    it, n = item_of(f), fname(f)
    if it in ("copy_nonoverlapping", "copy", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping", "write", "write_bytes", "swap", "replace") and "ptr" in n:
        if it not in ("copy_nonoverlapping", "copy"):
            r.bad("%s:%s" % (rt.name, it), "%s writes memory with `%s`, without a shape to say what is there" % (rt.name, it), at)
            return
        r.count("raw copies")
        L = bare(args[2])
        S = None
        if L[0] == "call" and item_of(L[1]) == "size":
            S = fld(L[2][0], "layout")
        if not r.check(S is not None, rt.name + ":copy:size", "%s copies a number of bytes that isn't a shape's size" % rt.name, at):
            return
        ok, what = rt.fits(fam, args[0], S)
        r.check(ok, rt.name + ":copy:from", "%s copies the bytes of a shape from %s" % (rt.name, what), at)
        for d in rt.place(fam, args[1]):
            if d is None or d[0] != "own":
                r.bad(rt.name + ":copy:to", "%s copies a value to an address whose origin is not recognised" % rt.name, at)
                continue
            base = fld(bare(poly.ptr(args[1])[0]), "data")
            own = rt.canon((".", base, None, "shape", None)) if base is not None else None
            cands = [rt.canon(x) for x in own_shapes(rt, base)]
            r.check(any(shapes_equal(rt, fam, bi, c, rt.canon(S)) for c in cands), rt.name + ":copy:equal",
                    "%s copies a value into memory of another shape: the shapes aren't compared first" % rt.name, at,
                    "%s: a raw copy only between equal shapes" % rt.name)
        return
    if it in ("put_shape",) and "Wip" in n:
        ok, what = rt.fits(fam, args[1], args[2]) if not type_param_value(rt, args[1], args[2]) else (True, "a value of the type")
        r.count("values put by address")
        r.check(ok, rt.name + ":put_shape", "%s puts a value from %s" % (rt.name, what), at, "%s: put_shape of %s" % (rt.name, what))
    if it == "put_from_fn" and "Wip" in n:
        ok, what = default_fn(rt, fam, args[0], args[1])
        r.count("values put by function")
        r.check(ok, rt.name + ":put_from_fn", "%s puts what %s makes" % (rt.name, what), at, "%s: put_from_fn of %s" % (rt.name, what))


def own_shapes(rt, base):
    """expressions for the shape of a frame"""
    out = []
    for fam in rt.fams:
        g = fam.g
        for bi in g.reachable():
            for s in g.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "use":
                    e = fam.res(g._rv_expr((bi, 0, s[2]), 0, ()))
                    x = fld(e, "shape")
                    if x is not None and rt.same(x, base):
                        out.append(e)
    return out


def type_param_value(rt, data, shape):
    T = poly.type_shape(rt, shape)
    if T is None:
        return False
    base, off = poly.ptr(data)
    b = bare(base)
    while b[0] == "call" and item_of(b[1]) in ("deref", "new", "deref_mut", "as_ptr") and b[2]:
        b = bare(b[2][0])
    return off is None and b[0] == "p" and rt.g.ts(rt.g.argl[b[1]]) in (T, "&" + T)


def default_fn(rt, fam, wip, f):
    x = bare(f)
    s = slot(f)
    if s and s[0] == "value" and s[2] == "default_in_place":
        o = fld(s[1], "shape")
        k = rt.fkey(fam, o) if o is not None else None
        if k is not None and k[0] == "top" and k[1] == rt.wip(wip):
            return True, "the default function of the frame's own shape"
        return False, "the default function of another shape"
    if x[0] == "." and x[4] == "Some":
        c = bare(x[1])
        if c[0] == "call" and item_of(c[1]) in ("find_map", "next", "find") and c[2]:
            src = poly.iter_src(c[2][0])
            F = fld(src[0], "attributes") if src else None
            w = bare(wip)
            g, a = rt.built_by(w)
            if F is not None and g is not None and g.raw.get("item") == "field" and len(a) == 2:
                e = poly.elem(rt, F)
                sl = poly.slice_of(rt, F)
                d = fld(sl, "fields") if sl is not None else None
                o = bare(d[1]) if d is not None and d[0] == "." and d[4] == "Struct" else None
                S = fld(o, "def") if o is not None else None
                fr = fld(S, "shape") if S is not None else None
                k = rt.fkey(fam, fr) if fr is not None else None
                if e is not None and e[1] == poly.index(rt, a[1]) and k is not None and k[0] == "top" and k[1] == rt.wip(a[0]):
                    return True, "the field's own default attribute"
                return False, "the default attribute of another field"
    return False, "a function whose origin is not recognised"


def pushes(rt, r):
    """what goes on the stack is paired with what is below it"""
    for fam in rt.fams:
        g = fam.g
        for bi in sorted(g.reachable()):
            t = g.blocks[bi]["t"]
            if t[0] != "call" or item_of(g.fnval(t)) not in ("push", "insert") or len(t[2]) != 2:
                continue
            args = [fam.res(g.expr(a)) for a in t[2]]
            v = frames_of(args[0])
            if v is None:
                continue
            r.count("frames pushed")
            at = g.where(bi)
            F = bare(args[1])
            if not r.check(F[0] == "agg" and F[1][1] == FRAME, rt.name + ":push", "%s pushes a frame whose origin is not recognised" % rt.name, at):
                continue
            fr = dict(zip(F[1][3], F[2]))
            st = [x for x in walk(fr["istate"]) if x[0] == "agg" and x[1][0] == "adt" and x[1][1] == ISTATE]
            mode = mode_const(dict(zip(st[0][1][3], st[0][2]))["mode"]) if len(st) == 1 else None
            ok, what = below(rt, fam, bi, rt.wip(v), fr, mode, st and dict(zip(st[0][1][3], st[0][2]))["mode"])
            r.check(ok, rt.name + ":push:below", "%s pushes a frame of mode %s %s" % (rt.name, mode, what), at, "%s: %s frame %s" % (rt.name, mode, what))


def below(rt, fam, bi, wip, fr, mode, mexpr):
    ver = rt.version(fam, bi)
    ss = rt.shapes(fam, fr["shape"])
    ds = rt.place(fam, fr["data"])
    top = ("top", wip, ver)
    if mode == "Field":
        if all(d is not None and d[0] == "field" and d[1] == ("own", top) for d in ds):
            return True, "for a field of the frame below it"
        return False, "for something that is not a field of the frame below it"
    if mode == "OptionNone":
        if ds == {("own", top)}:
            return True, "for the value of the frame below it"
        return False, "for something else than the value of the frame below it"
    want = {"ListElement": ("t", "List"), "OptionSome": ("t", "Option"), "MapKey": ("k", "Map"), "MapValue": ("v", "Map")}.get(mode)
    if want is None:
        return False, "whose place on the stack is not known"
    for x in flat(fr["shape"]):
        a = accessor(x, ("t", "k", "v"))
        if a is None or a[0] != want[0] or bare(a[1])[0] != "." or bare(a[1])[4] != want[1]:
            return False, "that is not of the shape of the %ss of a %s" % (want[0], want[1])
        S = fld(bare(a[1])[1], "def")
        S = fld(S, "shape") if S is not None else None
        k = rt.fkey(fam, S) if S is not None else None
        if mode != "MapValue":
            if k != top:
                return False, "for the element of something else than the frame below it"
            continue
        if k is None or k[0] != "at" or k[1] != wip or k[3] != ver or from_top(rt, bare(S), 2) is not True:
            return False, "for the value of something else than the map two frames below it"
        m = bare(mexpr)
        if from_top_index(rt, m[2][0], 1) is not True:
            return False, "whose key is not the frame below it"
        if not key_mode(rt, fam, bi, m[2][0]):
            return False, "without the frame below it being a key"
    return True, "for the element of the frame below it" if mode != "MapValue" else "for the value of the map below its key"


def from_top(rt, X, n):
    """is X frames[len - n]?"""
    return from_top_index(rt, X[2][1], n) if X[0] == "call" and len(X[2]) == 2 else None


def from_top_index(rt, i, n):
    i = bare(i)
    if i[0] == "." and i[2] == 0 and bare(i[1])[0] == "bin":
        i = bare(i[1])
    if i[0] == "bin" and i[1].startswith("Sub"):
        l, k = bare(i[2]), bare(i[3])
        if l[0] == "call" and item_of(l[1]) == "len" and frames_of(l[2][0]) is not None and k[0] == "k":
            return str(k[1].get("bits")) == str(n)
    return None


def key_mode(rt, fam, bi, idx):
    """is block bi only entered when frames[idx] has mode MapKey?"""
    ci = rt.canon(idx)

    def at(x):
        x = bare(x)
        return x[0] == "call" and item_of(x[1]) in ("index", "index_mut") and rt.canon(x[2][1]) == ci

    def other(m):
        def assume(kind, a):
            if kind == "discr":
                x = fld(a[0], "mode")
                x = fld(x, "istate") if x is not None else None
                if x is not None and (at(x) or rt.fkey(fam, x)[0] == "top"):
                    return m
            return None
        return assume
    return all(not rt.enters(fam, bi, other(m)) for n, m in rt.prog.modes.items() if n != "MapKey")
