"""facet-pretty: what a field marked sensitive holds is not printed."""
import re
from . import flow, vt
from .absint import Interp, Undecided, K, is_lin, num
from .poly import item_of
from .vt import fname
from .c_json import Js
from .c_msgpack import targ

CR = "facet_pretty"
SENSITIVE = 1
# whose own Display or Debug shows no fields: scalars and functions have none, smart pointers only name themselves
SHOWN = {"Scalar", "FunctionPointer", "Undefined", "SmartPointer"}


def policy(c, fn):
    if c.id.split("::")[-1] in ("from_ref",):
        return False
    if "::fmt" == c.id[-5:]:
        return False
    return c.crate.name in (CR, "facet_vf_models") or (c.crate.name in ("core", "alloc", "std") and len(c.body["blocks"]) < 16)


def program(fx):
    p = flow.PolyProgram(fx, ["facet_core", "facet_reflect", CR], models=True)
    a = next((a for a in fx.crate("facet_core").d["adts"] if a["id"].endswith("::Def") and a.get("variants")), None)
    p.defs = {v["name"]: i for i, v in enumerate(a["variants"])} if a else {}
    return p


def within(x, v):
    if x == v:
        return True
    return isinstance(v, tuple) and any(within(x, y) for y in v)


def parts(v, out):
    """the fields whose contents a value is, or comes from"""
    if isinstance(v, tuple):
        if v[:1] == ("fieldof",):
            out.append(v)
        if v[:1] in (("shapeof",), ("flagged",)) or v[:1] == ("call",) and (v[1] in PLAIN or v[1].startswith("is_")):
            return out
        for x in v:
            parts(x, out)
    return out


PLAIN = ("id", "len", "field_count", "type_name", "def", "vtable", "layout", "hash", "data")
ADD = ("push", "push_back", "push_front", "insert", "extend", "extend_from_slice", "append", "write", "send", "replace")
VIEW = re.compile(r"into_(struct|list|map|enum|option|smart_pointer|array|slice|set)$")


class Printer(Js):
    def __init__(self, g, p, wrappers, types):
        Js.__init__(self, g)
        self.p, self.wrappers, self.types = p, wrappers, types
        self.uses = []          # (how, value, state of the item it is put away in, state, block)

    def enter(self, st, bi, frm):
        return Interp.enter(self, st, bi, frm)

    def run(self):
        return Interp.run(self)

    def unknown(self, old, t):
        if isinstance(old, tuple) and old[:2] == ("agg", "#Iter"):
            return Js.unknown(self, old, t)
        return Interp.unknown(self, old, t)

    def switch(self, st, v, t):
        key = v[1] if isinstance(v, tuple) and v[0] == "sym" else None
        if isinstance(key, tuple) and key[:1] == ("discr",):
            # which of several variants it is: not being one of them doesn't say which it is
            c = st.conds.get(key)
            out, other = [], t[3]
            for w, b in t[2]:
                if c is None or c == int(w) or isinstance(c, tuple) and int(w) not in c[1]:
                    out.append((b, self.chose(st, key, int(w))))
            if c is None or isinstance(c, tuple) or all(int(w) != c for w, _ in t[2]):
                if self.g.blocks[other]["t"][0] != "unreachable":
                    no = tuple(sorted(set(c[1] if isinstance(c, tuple) else ()) | {int(w) for w, _ in t[2]}))
                    out.append((other, st if isinstance(c, int) else self.chose(st, key, ("not", no))))
            return out
        return Js.switch(self, st, v, t)

    def initial(self, root):
        if isinstance(root, int) and root in self.g.argl:
            return ("sym", ("arg", root))
        return Interp.initial(self, root)

    def who(self, v):
        n = self.name(v)
        while isinstance(n, tuple) and n and n[0] in ("*", "sym"):
            n = n[1]
        return n

    def ispeek(self, v):
        return True

    def use(self, st, bi, how, v, item=None):
        self.uses.append((how, v, item, st, bi))

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        cr = vt.fdef(f).split("::")[0]
        if it == "contains" and "FieldFlags" in nm or it == "intersects" and "FieldFlags" in nm:
            n = self.bits(D[1])
            if n is not None:
                return [(st, ("sym", ("flagged", self.name(D[0]), n, it)))]
        if it == "shape" and len(args) == 1 and "Peek" in nm:
            return [(st, ("sym", ("shapeof", self.who(D[0]))))]
        m = VIEW.match(it)
        if m and len(args) == 1 and "Peek" in nm:
            w = ("sym", ("view", m.group(1), self.who(D[0])))
            return [(st, self.okv(w)), (st.copy(), self.errv(("sym", "another kind")))]
        w = self.who(D[0]) if D and isinstance(D[0], tuple) else None
        if isinstance(w, tuple) and w[:1] == ("view",):
            if it in ("field", "get") and len(args) == 2:
                if w[1] in ("struct", "enum"):
                    return [(st, self.given_as(dt, ("sym", ("fieldof", w, D[1]))))]
            if it in ("fields", "iter", "into_iter") and w[1] in ("struct", "enum"):
                return [(st, self.piter(("sym", ("fields", w))))]
            if it in ("active_variant", "def"):
                return [(st, ("sym", (it, w)))]
            if it in ("field_by_name", "get_field_by_name", "fields_for_serialize"):
                return [(st, self.given_as(dt, ("sym", ("fieldof", w, ("sym", self.new())))))]
        if nm.find("fmt::rt::Argument") >= 0 and it.startswith("new_"):
            ty = targ(self, bi, f) or ""
            if re.search(r"\bPeek\b", ty) or any(re.search(r"\b%s\b" % x, ty) for x, y in self.wrappers.items() if y):
                for x in self.held(st, D[0]):
                    self.use(st, bi, "formatted", x)
            elif not any(re.search(r"\b%s\b" % x, ty) for x in self.wrappers) and parts(D[0], []):
                self.use(st, bi, "printed", D[0])
            return [(st, ("sym", ("text", self.new())))]
        if cr == "facet_reflect" and it in ("fmt", "to_string", "format") or it in ("to_string",) and "Peek" in nm:
            self.use(st, bi, "formatted", D[0])
        if it in ADD:
            for a in D[1:]:
                for x in self.held(st, a):
                    self.use(st, bi, "put away", x, a)
        if it in ("get", "get_by_name") and "Peek::" in nm + "::" and len(args) == 1:
            self.use(st, bi, "taken out", D[0])
        if cr == CR and vt.fdef(f) not in getattr(self.g, "inlined", ()):
            for a in D:
                for x in self.held(st, a):
                    self.use(st, bi, "passed on", x, a)
        if it in ("to_string", "clone", "to_owned", "bold", "dim", "cyan") or "owo_colors" in nm:
            return [(st, D[0] if isinstance(D[0], tuple) else args[0])]
        r = Js.call(self, st, bi, f, args, t, dt)
        return r

    def given_as(self, t, v):
        m = re.match(r"(?:\w+::)*(Option|Result)<(.*)>$", t or "")
        if not m:
            return v
        v = self.given_as(m.group(2).split(", ")[0] + (">" if m.group(2).count("<") and m.group(1) == "Result" and m.group(2).split(", ")[0].count("<") > m.group(2).split(", ")[0].count(">") else ""), v)
        return self.some(v) if m.group(1) == "Option" else self.okv(v)

    def elem(self, src, i):
        n = self.name(src)
        if isinstance(n, tuple) and n[:1] == ("fields",):
            return ("agg", "tuple", 0, (("sym", ("[]", ("sym", n), i)), ("sym", ("fieldof", n[1], i))))
        return Js.elem(self, src, i)

    def held(self, st, v):
        """the peeks something holds"""
        v = self.deref(st, v)
        if isinstance(v, tuple) and v[:1] == ("agg",):
            return [x for y in v[3] for x in self.held(st, y)]
        return [v] if isinstance(v, tuple) and v[:1] == ("sym",) else []

    def bits(self, v):
        for _ in range(4):
            if is_lin(v):
                return num(v)
            if isinstance(v, tuple) and v[:1] == ("agg",) and len(v[3]) == 1:
                v = v[3][0]
            else:
                return None

    def length(self, st, v):
        return Js.length(self, st, v)


def guarded(st, fo):
    """a path on which a field's own flags say that it isn't sensitive"""
    _, view, i = fo
    for k, c in st.conds.items():
        if isinstance(c, tuple) or c != 0 or not (isinstance(k, tuple) and k[:1] == ("flagged",)):
            continue
        _, n, bits, how = k
        if not (bits == SENSITIVE or how == "intersects" and bits & SENSITIVE):
            continue
        if not (isinstance(n, tuple) and n[0] == "f" and n[-1] == "flags"):
            continue
        n = n[1]
        while isinstance(n, tuple) and n and n[0] in ("*", "sym"):
            n = n[1]
        if isinstance(n, tuple) and n[0] == "[]" and n[2] == i and owner(n[1], view):
            return True
    return False


def owner(base, view):
    """a list of fields is the one of what is viewed"""
    if within(view, base):
        return view[1] != "enum" or within(("active_variant", view), base) or within(("fields", view), base)
    return view[1] == "struct" and within(("shapeof", view[2]), base)


def kinds(p, st, w):
    """what kinds a value can have on a path"""
    for k, c in st.conds.items():
        if isinstance(k, tuple) and k[:1] == ("discr",) and k[1][0] == "f" and k[1][-1] == "def" and within(("shapeof", w), k[1]):
            if isinstance(c, tuple):
                return {n for n, i in p.defs.items() if i not in c[1]}
            return {n for n, i in p.defs.items() if i == c}
    return set(p.defs)


def c27(fx, r):
    """facet-pretty doesn't print what a field marked sensitive holds"""
    p = program(fx)
    r.rule("every path of every function of facet-pretty: the value of a field (found by index, by name or by iteration) is formatted, taken out, passed on or put away to be printed only where the flags of "
           "that very field were seen not to contain SENSITIVE, or in a state in which it is not looked at; a whole value's own Display or Debug, which knows nothing of flags, is used for scalars only")
    fs = {i: f for i, f in p.fns.items() if f.crate.name == CR}
    adts = {a["id"]: a for a in fx.crate(CR).d["adts"]}
    wrappers = {}
    inl, gs = set(), {}
    for i, f in sorted(fs.items()):
        if "{closure" in i or "{const" in i:
            continue
        gs[i] = flow.Graph(p, f, policy, cap=40000)
        inl |= {x if isinstance(x, str) else x.id for x in gs[i].inlined} - {i}
    # what is a Display or Debug of its own, and whether that shows what it holds
    name = {}
    for i, g in gs.items():
        if i.endswith("::fmt"):
            name[i] = re.sub(r"<.*", "", re.sub(r"^&('\w+ )?", "", Printer(g, p, {}, None).lname(g.argl[0]))).split("::")[-1]
    for n in name.values():
        wrappers[n] = False
    changed = True
    while changed:
        changed = False
        for i, n in name.items():
            if wrappers[n]:
                continue
            it = Printer(gs[i], p, wrappers, None)
            try:
                it.run()
            except Undecided:
                wrappers[n] = changed = True
                continue
            if any(how in ("formatted", "printed") and within(("arg", gs[i].argl[0]), v) for how, v, _, _, _ in it.uses):
                wrappers[n] = changed = True
    found = 0
    for i, g in gs.items():
        if i in inl:
            continue
        it = Printer(g, p, wrappers, None)
        try:
            it.run()
        except Undecided as e:
            r.notes.append("undecided: %s: %s" % (i, e))
            continue
        r.count("functions")
        # the states in which a value put away is looked at again
        looked = {}
        for how, v, item, st, bi in it.uses:
            for k in chain(v, []):
                if k[0] != "f":
                    continue
                got = [(c, key[1]) for key, c in st.conds.items() if isinstance(key, tuple) and key[:1] == ("discr",) and key[1][0] == "f" and key[1][1] == k[1] and key[1][2] != k[2]]
                for c, key in got:
                    looked.setdefault(key[2], set()).add(c)
        for how, v, item, st, bi in it.uses:
            w = g.where(bi)
            if how == "formatted":
                n = it.who(v)
                if name.get(i) and within(("arg", g.argl[0]), n):
                    continue
                for k in sorted(kinds(p, st, n) - SHOWN):
                    r.bad("whole:%s" % k, "%s prints a value of kind %s with the value's own Display or Debug, sensitive fields included" % (inn(g, bi), k), w)
                r.ok()
            for fo in parts(v, []):
                found += 1
                if guarded(st, fo) or quiet(item, adts, looked):
                    r.ok()
                    continue
                r.bad("field:%s:%s" % (inn(g, bi), fo[1][1]), "%s: the value of a field of %s is %s whether or not the field is marked sensitive" % (inn(g, bi), "an enum's variant" if fo[1][1] == "enum" else "a struct", how), w)
    r.count("uses of fields", found)
    r.floor("functions", 10)
    r.floor("uses of fields", 4)


def inn(g, bi):
    return g.blocks[bi]["fn"].id.replace(CR + "::", "")


def chain(v, out):
    if isinstance(v, tuple):
        if v[:1] == ("f",):
            out.append(v)
        for x in v:
            chain(x, out)
    return out


def quiet(item, adts, looked):
    """it is put away in a state in which nothing looks at it"""
    if not (isinstance(item, tuple) and item[:1] == ("agg",) and isinstance(item[1], str) and item[1] in adts):
        return False
    for j, x in enumerate(item[3]):
        if isinstance(x, tuple) and x[:1] == ("agg",) and isinstance(x[1], str) and len(adts.get(x[1], {}).get("variants") or ()) > 1:
            seen = looked.get(j, set())
            if seen and all(not isinstance(c, tuple) for c in seen) and x[2] not in seen:
                return True
    return False
