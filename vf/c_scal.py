"""YAML, TOML, forms: what is stored is what the document says, where it says it"""
import os
import struct
from . import flow, vt
from .absint import INTS, K, Undecided, add, atom, is_lin, num
from .poly import item_of
from .vt import fname
from . import c_jsonread
from .c_docs import Doc, CRATES, policy_of, program
from .c_msgpack import okret, targ

CONVERT = ("to_string", "to_owned", "into_owned", "into", "clone", "as_str", "as_ref", "borrow", "deref", "to_str", "from", "into_string", "as_deref", "cloned", "copied")
ASK = {"as_str": "str", "as_bool": "bool", "as_integer": "int", "as_i64": "int", "as_float": "float", "as_f64": "float", "as_value": "value", "as_array": "array", "as_vec": "array", "as_hash": "table",
       "as_table_like": "table", "as_table": "table", "as_inline_table": "table", "as_datetime": "datetime", "into_string": "str"}


class Scal(Doc):
    ghosts = (("at",), ("key",))

    def __init__(self, *a, **k):
        Doc.__init__(self, *a, **k)
        self.puts, self.goes, self.stores, self.builds = [], [], [], []
        self.uneven = []
        self.leaves = {}       # what a function that reads a part leaves the depth changed by

    def forget(self, st, head, body):
        Doc.forget(self, st, head, body)
        st.conds[("d", head)] = st.conds.get(("depth",), 0)

    def again(self, st, bi):
        if st.conds.get(("d", bi), 0) != st.conds.get(("depth",), 0):
            self.uneven.append((bi, "is left with another part selected after a turn than before it"))
        return Doc.again(self, st, bi)

    def nm(self, st, v):
        v = self.deref(st, v)
        if is_lin(v):
            return v
        n = self.name(v)
        return n if n is not None else v

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict):
            return None
        it, nm = item_of(f), fname(f)
        d = vt.fdef(f)
        N = [self.nm(st, a) for a in args]
        wip = bool(args) and "Wip" in (self.argtype(bi, t, 0) or "")
        ext = not d.startswith(("facet_", "core::option", "core::result"))

        def sym(*n):
            return ("sym", n)

        def maybe(v):
            return [(st, self.some(v)), (st.copy(), self.NONE)]
        if it == "try_from_shape":
            return maybe(sym("scalar type"))
        if it in ("is_type", "current_is_type") and not nm.startswith("Peek"):
            T = targ(self, bi, f)
            k = ("is", T)
            out = []
            for x in (True, False):
                if st.conds.get(k, x) == x:
                    a = st.copy()
                    a.conds[k] = x
                    out.append((a, x))
            return out
        if wip and it in ("put", "try_put"):
            self.puts.append((targ(self, bi, f), N[1], st, bi))
            if st.conds.get(("at",)) == "push_map_key":
                st = st.copy()
                st.conds[("key",)] = N[1]
            return [(st, self.okv(sym("wip"))), (st.copy(), self.errv(sym("refused")))]
        if wip and it in ("parse", "try_put_f64", "put_from_fn", "put_default", "put_shape"):
            self.puts.append((it, N[1:], st, bi))
        if wip and it in ("field_index",):
            return maybe(sym("index of", N[1]))
        if wip and it in ("field", "field_named", "push", "push_some", "push_map_key", "push_map_value", "pop", "begin_pushback", "begin_map_insert", "pop_some_push_none", "build", "variant_named", "variant"):
            a = st.copy()
            n = a.conds.get(("depth",), 0) + {"pop": -1, "push": 1, "push_some": 1, "push_map_key": 1, "field": 1, "field_named": 1}.get(it, 0)
            a.conds[("depth",)] = max(-4, min(4, n))
            if it == "build":
                self.builds.append((st.conds.get(("depth",), 0), bi))
            if it in ("field", "field_named"):
                n = N[1]
                a.conds[("at",)] = n[1] if isinstance(n, tuple) and n[:1] == ("index of",) else ("named", n) if it == "field_named" else ("index", n)
            elif it == "variant_named":
                a.conds[("chosen",)] = N[1]
            else:
                a.conds[("at",)] = it
            if it not in ("variant_named", "variant"):
                return [(a, self.okv(sym("wip"))), (st, self.errv(sym("refused")))]
        if d in self.contract or any(d == x for x in self.contract):
            self.goes.append((d, N, st, bi))
            if wip or any("Wip" in (self.argtype(bi, t, i) or "") for i in range(len(args))):
                st = st.copy()
                if "HeapValue" not in dt:
                    st.conds[("depth",)] = st.conds.get(("depth",), 0) + self.leaves.get(d, 0)
                st.conds[("at",)] = "pop"
        if ext and it in ASK and len(args) == 1 and isinstance(N[0], tuple) and "Option" in dt:
            return maybe(sym(ASK[it], N[0]))
        if it == "value" and len(args) == 1 and ext:
            return [(st, ("refv", sym("payload", N[0])))]
        if it == "parse" and ext and "str" in nm:
            T = dt.split("<", 1)[1].rsplit(",", 1)[0] if "<" in dt else dt
            return [(st, self.okv(sym("parsed", targ(self, bi, f), N[0]))), (st.copy(), self.errv(sym("unparsed")))]
        if it == "from_str" and "FromStr" in nm and len(args) == 1:
            return [(st, self.okv(sym("parsed", targ(self, bi, f), N[0]))), (st.copy(), self.errv(sym("unparsed")))]
        if it in ("from", "into") and dt in INTS and len(args) == 1 and (self.argtype(bi, t, 0) or "") == "bool" and isinstance(N[0], tuple):
            return [(st, sym("number of", N[0]))]
        if it == "push_str" and len(args) == 2 and isinstance(args[0], tuple) and args[0][:1] == ("ref",):
            a = st.copy()
            self.put(a, args[0][1], list(args[0][2]), sym("pieces", tuple(("disp", "new_display", x, None) for x in N)))
            return [(a, self.UNIT)]
        if "NumCast" in nm and it == "from":
            T = targ(self, bi, f)
            if isinstance(N[0], tuple) and N[0][:1] == ("float",) and N[0][1] == "f64":
                x = struct.unpack("<d", struct.pack("<Q", N[0][2]))[0]
                if T in INTS:
                    return [(st, self.some(K(int(x))))]
                if T in ("f64", "f32"):
                    return [(st, self.some(N[0]))]
            return maybe(sym("cast", T, N[0]))
        if it == "to_f64" and len(args) == 1 and (num(N[0]) is not None or isinstance(N[0], tuple) and N[0][:1] == ("float",)):
            return [(st, self.some(N[0] if N[0][0] == "float" else ("float", "f64", struct.unpack("<Q", struct.pack("<d", float(num(N[0]))))[0])))]
        if it in ("eq", "ne") and len(args) == 2:
            x, y = self.deref(st, args[0]), self.deref(st, args[1])
            if all(isinstance(z, tuple) and z[:1] == ("agg",) and len(z[3]) == 1 and isinstance(z[3][0], tuple) and z[3][0][:1] == ("float",) for z in (x, y)):
                return [(st, (x == y) == (it == "eq"))]
        if it == "clone" and len(args) == 1 and isinstance(N[0], tuple) and ext and not is_lin(N[0]):
            return [(st, ("sym", N[0]))]
        if it == "add" and len(args) == 2 and "String" in (self.argtype(bi, t, 0) or ""):
            return [(st, sym("pieces", tuple(("disp", "new_display", x, None) for x in N)))]
        if it in ("insert", "entry") and len(args) > 1 and ext and "Map" in (self.argtype(bi, t, 0) or ""):
            self.stores.append((it, N, st, bi))
        if it == "fract":
            return [(st, sym("fract", N[0]))]
        if it in CONVERT and len(args) == 1 and isinstance(N[0], tuple) and (ext or it in ("into", "from")) and ("String" in dt or "str" in dt or "Cow" in dt):
            return [(st, sym(*(N[0] if N[0][:1] == ("text",) else ("text", N[0]))))]
        if it == "to_string" and len(args) == 1 and is_lin(N[0]):
            return [(st, sym("decimal", N[0]))]
        if it == "get" and len(args) == 2 and ext and "Option" in dt:
            return maybe(sym("valueof", N[0], N[1]))
        return Doc.call(self, st, bi, f, args, t, dt)


# ------------------------------------------------------------------------------------------------ what the values are made of

def strip(v):
    """a value without what only lends, copies or wraps it"""
    while isinstance(v, tuple) and v:
        if v[0] in ("sym", "refv", "text", "*") and len(v) == 2:
            v = v[1]
        elif v[0] == "sl" and num(v[2]) == 0 and v[3] == atom(("s", "usize", ("len", v[1]))):
            v = v[1]
        elif v[0] == "agg" and len(v[3]) == 1 and (str(v[1]).endswith("::Cow") or str(v[1]).endswith("Item")):
            v = v[3][0]
        elif v[0] == "lin" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][0] == "s" and isinstance(v[2][0][0][2], tuple) and v[2][0][0][2][0] in ("f", "payload"):
            v = v[2][0][0][2]
        elif v[0] == "f" and v[-1] is None and isinstance(v[1], tuple):
            return ("f", strip(v[1]), v[2])
        elif v[0] == "f" and isinstance(v[1], tuple) and v[1][:1] == ("as",) and v[1][2] == "Some":
            v = ("some", strip(v[1][1]))
        elif v[0] == "f" and isinstance(v[1], tuple) and v[1][:1] == ("as",):
            return ("as", v[1][2], strip(v[1][1]))
        elif v[0] == "f":
            return ("f", strip(v[1]), v[2])
        else:
            break
    if isinstance(v, tuple) and v and v[0] in ("payload", "str", "value", "int", "bool", "float", "table", "array"):
        return v[:1] + tuple(strip(x) for x in v[1:])
    if isinstance(v, tuple) and v and v[0] == "valueof":
        return ("valueof", strip(v[1]), strip(v[2]))
    return v


def scalar(v):
    """(kind of node, node) of what a node holds"""
    v = strip(v)
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "payload":
        return scalar(v[1])
    if v[0] in ("str", "bool", "int", "float"):
        n = scalar_of(v[1])
        return {"str": "String", "bool": "Boolean", "int": "Integer", "float": "Float"}[v[0]], n
    if v[0] == "as":
        return v[1], scalar_of(v[2])
    return None


def scalar_of(n):
    """the node that a value belongs to"""
    n = strip(n)
    while isinstance(n, tuple) and n and (n[0] == "value" or n[0] == "as" and n[1] == "Value"):
        n = strip(n[1] if n[0] == "value" else n[2])
    return n


def short(t):
    return t.replace("std::string::", "").replace("alloc::string::", "").replace("std::borrow::", "").replace("alloc::borrow::", "").replace("'_ ", "").replace("std::net::", "").replace("core::net::", "")


NAMES = {"Bool": "bool", "String": "String", "CowStr": "Cow<'_, str>", "Str": "&str", "F32": "f32", "F64": "f64", "USize": "usize", "ISize": "isize"}


def made(st, T, v, texts):
    """[(kind, node)] that a value of type T is made of, or None if it isn't what they say"""
    ints = T in INTS and T != "char"
    w = strip(v)
    if is_lin(v) and num(v) is not None:
        # a boolean as a number
        for k, x in st.conds.items():
            s = scalar(k)
            if s and s[0] == "Boolean" and isinstance(x, int):
                return s if num(v) == int(x) else None
        return None
    if isinstance(w, tuple) and w and w[0] == "cast":
        if w[1] != T and w[1] not in ("i64", "i128"):
            return None
        s = scalar(w[2])
        if s is None:
            return made(st, w[1], w[2], texts) if isinstance(strip(w[2]), tuple) and strip(w[2])[:1] == ("cast",) else None
        if s[0] == "Integer" and (ints or T in ("f32", "f64")):
            return s
        if s[0] == "Float" and T in ("f32", "f64"):
            return s
        if s[0] == "Float" and ints:
            for k, x in st.conds.items():
                if isinstance(k, tuple) and k[0] in ("Eq", "Ne") and isinstance(x, int) and bool(x) == (k[0] == "Eq") and any(strip(y)[:1] == ("fract",) and strip(strip(y)[1]) == strip(w[2]) for y in k[1:] if isinstance(strip(y), tuple)) \
                        and any(isinstance(y, tuple) and y[:1] == ("float",) and y[2] << 1 & (1 << 64) - 1 == 0 for y in k[1:]):
                    return s
        return None
    if is_lin(w) and w[1] == 0 and len(w[2]) == 1 and w[2][0][1] == 1 and isinstance(w[2][0][0][-1], tuple) and w[2][0][0][-1][:1] == ("cast",):
        s = scalar(next((y for y in w[2][0][0][-1][1:] if isinstance(y, tuple)), None))
        return s if s is not None and s[0] == "Boolean" and ints else None
    if isinstance(w, tuple) and w and w[0] == "number of":
        s = scalar(w[1])
        return s if s is not None and s[0] == "Boolean" and ints else None
    if isinstance(w, tuple) and w and w[0] == "parsed":
        if w[1] != T and short(w[1]) != short(T):
            return None
        return texts(w[2])
    if short(T) in ("String", "&str") or "Cow<" in T:
        return texts(v)
    s = scalar(v)
    if s is None:
        return None
    if T == "bool":
        return s if s[0] == "Boolean" else None
    if ints:
        return s if s[0] == "Integer" else None
    if T in ("f32", "f64"):
        return s if s[0] == "Float" else None
    return None


def pair(k, v):
    """a key and the value that goes with it"""
    k, v = strip(k), strip(v)
    if isinstance(k, tuple) and k[:1] == ("str",):
        k = strip(k[1])
    if isinstance(k, tuple) and isinstance(v, tuple):
        if k[:1] == ("f",) and v[:1] == ("f",) and k[1] == v[1] and k[2] == 0 and v[2] == 1:
            return True
        if v[:1] == ("valueof",) and v[2] == k:
            return True
    return False


def c30(fx, r):
    """what a document's scalars say is what is stored, where they say it"""
    r.rule("on every path of the YAML, TOML and form readers: what is put is what a node of the document holds (its own text, number or boolean, converted with nothing lost, or parsed as the type), "
           "and the node is the one that the place was selected for: the value that goes with the key or name that selected the field, the variant, the map's key")
    for cr in CRATES:
        # the functions that read a part leave the Wip at that part, or at what it is a part of
        leaves = {}
        for _ in range(4):
            if not reader(fx, r, cr, leaves, True):
                break
        reader(fx, r, cr, leaves, False)
    r.floor("values put", 20)
    r.floor("nodes passed on", 6)


def reader(fx, r, cr, leaves, dry):
    p = program(fx, cr)
    kinds = next((a for a in fx.crate("facet_reflect").d["adts"] if a["id"].endswith("::ScalarType")), None)
    kinds = [v["name"] for v in kinds["variants"]] if kinds else []
    fs, calls = c_jsonread.callgraph(p, "::", cr)
    rec = {i for i in fs if c_jsonread.reaches(calls, i, i) and "{closure" not in i}
    called = {c for i in fs for c in calls[i] if c != i}
    roots = [f for i, f in sorted(fs.items()) if "{closure" not in i and "{const" not in i and (i in rec or i not in called)]
    done, bads = set(), []
    left = [f for i, f in sorted(fs.items()) if "{closure" not in i and "{const" not in i]
    while roots or any(f.id not in done for f in left):
        f = roots.pop(0) if roots else next(f for f in left if f.id not in done)
        done.add(f.id)
        g = flow.Graph(p, f, lambda c, x: policy_of(cr)(c, x) and c.id not in rec, cap=40000)
        done |= {x if isinstance(x, str) else x.id for x in g.inlined}
        it = Scal(g, fx, rec)
        it.allocated = set()
        it.leaves = leaves
        try:
            outs = it.run()
        except Undecided as e:
            if not dry:
                r.notes.append("undecided: %s: %s" % (f.id, e))
            continue
        off = [(bi, "is built while a part of it is still selected") for n, bi in it.builds if n != 0] + it.uneven
        if any("Wip" in it.lname(l) for l in g.argl) and not it.builds:
            back = [x for x in outs if x[0] == "ret" and okret(x[1]) != 0]
            ds = {x[2].conds.get(("depth",), 0) for x in back}
            if dry and ds and f.id in rec and leaves.get(f.id, 0) != min(ds):
                leaves[f.id] = min(ds)
                bads.append(f.id)
            want = leaves.get(f.id, 0) if f.id in rec else min(ds, default=0)
            off += [(x[3], "is left with another part selected than elsewhere") for x in back if x[2].conds.get(("depth",), 0) != want]
        if dry:
            continue
        r.count("ways out", len(outs))
        for bi, what in off:
            r.bad("depth:" + f.id.replace(cr + "::", ""), "%s: the value %s" % (f.id.replace(cr + "::", ""), what), c_jsonread.nearest(g, bi))
        if not off:
            r.ok()
        r.count("functions")
        name = f.id.replace(cr + "::", "")
        node = [("arg", l) for l in g.argl if any(x in it.lname(l) for x in ("Item", "Yaml", "NestedValues"))]
        isroot = not any("Wip" in it.lname(l) for l in g.argl)

        def belongs(st, n, kind=None):
            """is the node the one that this place is for"""
            n = scalar_of(n)
            at = st.conds.get(("at",))
            if isinstance(at, tuple) and at[0] == "index":
                if isinstance(n, tuple) and n[:1] == ("valueof",):
                    # the field there goes by its name, or its position
                    return n[2] == at[1] or isinstance(n[2], tuple) and n[2][:1] == ("f",) and n[2][-1] == 0 and isinstance(n[2][1], tuple) and n[2][1][0] == "[]" and n[2][1][2] == at[1]
                return n in node
            if at == "gone":
                return False
            if at == "push_map_value":
                k = st.conds.get(("key",))
                return k is not None and pair(k, n)
            if at == "push":
                if isinstance(n, tuple) and n[:1] in (("valueof",), ("[]",)) and is_lin(n[2]) and num(n[2]) is not None:
                    return False        # the same one whichever turn it is
                return n not in node and not (isinstance(n, tuple) and n[:1] == ("arg",))
            if isinstance(at, tuple):
                k = strip(at[1] if at[0] == "named" else at)
                if isinstance(k, tuple) and k[:1] == ("str",):
                    k = strip(k[1])
                if pair(k, n):
                    return True
                if isinstance(n, tuple) and n[:1] == ("valueof",) and at[0] == "named":
                    # the fields of tuples go by their position
                    if is_lin(n[2]) and isinstance(k, tuple) and k[0] == "f" and k[-1] == 0 and isinstance(k[1], tuple) and k[1][0] == "[]" and k[1][2] == n[2]:
                        return True
                return n in node and at[0] == "named"
            return n in node or isroot or any("str" in it.lname(l) and n == ("arg", l) for l in g.argl)
        for T, v, st, bi in it.puts:
            w = g.where(bi)
            r.count("values put")
            k = "put:%s:%s" % (name, short(T))
            if not isinstance(T, str) or isinstance(v, list):
                r.bad(k, "%s: what is stored isn't told (%s)" % (name, T), w)
                continue
            d = st.conds.get(("discr", ("scalar type",)))
            if isinstance(d, int) and d < len(kinds):
                want = NAMES.get(kinds[d], kinds[d].lower() if kinds[d][1:].isdigit() else kinds[d])
                r.check(short(T) == want or want.startswith("Cow") and "Cow<" in T, k + ":type", "%s: a %s is put where a %s belongs" % (name, short(T), want), w)
            iskey = st.conds.get(("at",)) == "push_map_key"
            keys = []

            def texts(x):
                if iskey:
                    keys.append(x)
                    return ("key", None)
                s = scalar(x)
                if s is not None:
                    return s if s[0] in ("String", "Real") else None
                return ("String", x)
            s = made(st, T, v, texts)
            if not r.check(s is not None, k, "%s: what is stored as %s isn't what the document says there" % (name, short(T)), w):
                continue
            if not iskey:
                r.check(belongs(st, s[1]), k + ":place", "%s: what is stored as %s isn't of the node that belongs there" % (name, short(T)), w)
            else:
                x = strip(keys[0])
                r.check(isinstance(x, tuple) and (x[0] == "f" and x[-1] == 0 or x[0] == "str"), k + ":key", "%s: a map's key isn't a key of the document" % name, w)
        paths(r, it, g, name)
        for d, N, st, bi in it.goes:
            c = fs.get(d)
            if c is None:
                continue
            ts = [it.argtype(bi, g.blocks[bi]["t"], i) or "" for i in range(len(N))]
            w = g.where(bi)
            if not any("Wip" in x for x in ts):
                continue
            ns = [N[i] for i, x in enumerate(ts) if any(y in x for y in ("Item", "Yaml", "NestedValues"))]
            r.count("nodes passed on")
            if os.environ.get("DBG30"):
                print("GO", name, d, st.conds.get(("at",)), [scalar_of(n) for n in ns], [strip(N[i]) for i, x in enumerate(ts) if x.endswith("str")])
            for n in ns:
                sel = [N[i] for i, x in enumerate(ts) if x.endswith("str")]
                if st.conds.get(("at",)) is None and sel:
                    # what a variant is selected by
                    s = scalar(sel[0])
                    ok = pair(sel[0], n) or s is not None and scalar_of(s[1]) == scalar_of(n)
                else:
                    ok = belongs(st, n)
                r.check(ok, "node:%s:%s" % (name, d.split("::")[-1]), "%s: passes another node to %s than the one that belongs where it reads to" % (name, d.split("::")[-1]), w)
    return bads


def slices(it, v):
    """what a text is put together from: [(text, from, to)]"""
    v = strip(v)
    if isinstance(v, tuple) and v[:1] == ("pieces",):
        out = []
        for x in v[1]:
            if x[0] != "disp":
                return None
            y = slices(it, x[2])
            if y is None:
                return None
            out += y
        return out
    if isinstance(v, tuple) and v[:1] == ("sl",):
        return [(strip(v[1]), v[2], v[3])]
    if isinstance(v, tuple) and v[:1] in (("arg",), ("f",), ("ret",)):
        return [(v, K(0), None)]
    return None


def paths(r, it, g, name):
    """the names that a form's keys are taken apart into"""
    texts = [("arg", l) for l in g.argl if "str" in it.lname(l)]
    if not texts:
        return
    vals = [("arg", l) for l in g.argl if "String" in it.lname(l)]

    def at(k, c):
        """places of a character in the key"""
        return [x[1] for x in it.places.values() if x[0] == k and x[3] == ord(c)]

    def whole(s, k):
        return len(s) == 1 and s[0][0] == k and num(s[0][1]) == 0 and (s[0][2] is None or s[0][2] == atom(("s", "usize", ("len", k))))

    def inner(x, k):
        return x[0] == k and any(x[1] == add(o, K(1)) for o in at(k, "[")) and x[2] in at(k, "]")

    def rest(x, k):
        return x[0] == k and any(x[1] == add(c, K(1)) for c in at(k, "]")) and x[2] == atom(("s", "usize", ("len", k)))
    if not vals:
        for d, N, st, bi in it.goes:
            if d.split("::")[-1] == "insert" and len(N) > 2:
                r.count("names stored")
                r.check(pair(N[1], N[2]), "pair:%s" % name, "%s: keeps a pair's value under another key than its own" % name, g.where(bi))
        return
    both = [("map", i, N, st, bi) for i, N, st, bi in it.stores] + [("self", d, N, st, bi) for d, N, st, bi in it.goes if d.split("::")[-1] == "insert"]
    for how, i, N, st, bi in both:
        w = g.where(bi)
        r.count("names stored")
        s = slices(it, N[1])
        k = texts[0]
        if how == "map" and i == "entry":
            ok = s is not None and len(s) == 1 and s[0][0] == k and num(s[0][1]) == 0 and s[0][2] in at(k, "[")
            r.check(ok, "name:%s:entry" % name, "%s: what comes before a bracket isn't the name it is kept under" % name, w)
            continue
        if how == "map":
            ok = s is not None and (whole(s, k) or len(s) == 1 and inner(s[0], k))
        else:
            ok = s is not None and len(s) == 2 and inner(s[0], k) and rest(s[1], k)
        r.check(ok, "name:%s:%s" % (name, how), "%s: a value is kept under another name than its key's" % name, w)
        if len(N) > 2 and vals:
            r.check(strip(N[2]) in vals, "value:%s:%s" % (name, how), "%s: what is kept isn't the value of the pair" % name, w)
