"""C01-C05: the metadata constants against the compiler's own knowledge of the type."""
from .shapes import Corpus

_c = {}


def corpus(fx):
    if "c" not in _c:
        _c["c"] = Corpus(fx)
    return _c["c"]


def entries(C, r):
    for e in C.entries:
        r.count("types")
        al = e["alias"].lstrip(":")
        if e["shape"] is None or C.shape_adt(e["shape"]) is None:
            r.bad("shape:%s" % al, "the shape of %s cannot be evaluated at compile time" % C.ts(e["truth"]["ty"]), e["span"])
            continue
        yield al, C.ts(e["truth"]["ty"]), e, C.shape_adt(e["shape"]), e["truth"]


def same_type(C, shape, ty):
    """does `shape` describe type `ty` (index)?"""
    t = C.id_type(shape)
    return t is not None and (t == ty or C.ts(t) == C.ts(ty))


def shape_desc(C, shape):
    if shape is None:
        return "an undeterminable shape"
    t = C.id_type(shape)
    return "the shape of %s" % (C.ts(t) if t is not None else "?")


def strip_opaque(C, ty):
    t = C.types[ty]
    if t.get("def", "").endswith("macros::Opaque"):
        return t["args"][0]
    return None


def type_matches(C, shape, ty):
    """shape describes ty, or is the opaque wrapper's shape for ty"""
    if shape is None:
        return False
    if same_type(C, shape, ty):
        return True
    t = C.id_type(shape)
    if t is not None:
        i = strip_opaque(C, t)
        if i is not None and C.ts(i) == C.ts(ty):
            return True
    return False


def c01(fx, r):
    C = corpus(fx)
    r.rule("for every corpus type T and every shape reachable from T's: identity type == T, size/align == compiler "
           "layout, one type parameter entry per declared type parameter in order with the argument's own shape, "
           "container element/key/value/pointee shapes are the argument's")
    truth_by_type = {}
    for e in C.entries:
        truth_by_type[C.ts(e["truth"]["ty"])] = e["truth"]
    for al, name, e, sh, tr in entries(C, r):
        w = e["span"]
        r.check(same_type(C, sh, tr["ty"]), "id:" + al,
                lambda: "shape of %s carries the identity of %s" % (name, shape_desc(C, sh)), w, {"type": name, "rule": "identity"})
        lay = C.f(sh, "layout")
        sz, alg = C.f(lay, "size"), C.align(lay)
        r.check(sz == tr["size"] and alg == tr["align"], "layout:" + al,
                "shape of %s says size %s align %s, the compiler says size %s align %s" % (name, sz, alg, tr["size"], tr["align"]), w)
        t = C.types[tr["ty"]]
        tps = C.lst(C.f(sh, "type_params")) or []
        got = [(C.f(p, "name"), C.shape_fn(C.f(p, "shape"))) for p in tps]
        want = None
        if t["k"] == "adt" and tr.get("local"):
            want = [(p["name"], p["ty"]) for p in tr["tparams"]]
        elif t["k"] in ("array", "slice"):
            want = [(None, t["args"][0])]
        elif t["k"] == "ref" and C.types[t["args"][0]]["k"] == "slice":
            want = [(None, C.types[t["args"][0]]["args"][0])]
        elif t["k"] == "adt" and t["def"].split("::")[-1] in ("Vec", "Option", "Arc", "Weak", "NonNull"):
            want = [(None, t["args"][0])]
        elif t["k"] == "adt" and t["def"].split("::")[-1] == "HashMap":
            want = [(None, t["args"][0]), (None, t["args"][1]), (None, t["args"][2])]
        elif t["k"] == "adt" and t["def"].split("::")[-1] == "BTreeMap":
            want = [(None, t["args"][0]), (None, t["args"][1])]
        if want is not None:
            r.count("type_param_lists")
            good = len(want) == len(got) and all(
                (wn is None or wn == gn) and gs is not None and same_type(C, gs, wt)
                for (wn, wt), (gn, gs) in zip(want, got))
            r.check(good, "tparams:" + al, lambda: "shape of %s lists type parameters %s, declared are %s" % (
                name, [(g[0], shape_desc(C, g[1])) for g in got], [(x[0], C.ts(x[1])) for x in want]), w)
        elements(C, r, al, name, sh, tr, w)
    # every shape reachable from the corpus that describes a type of the corpus agrees with it
    for k, sh in C.shapes():
        t = C.id_type(sh)
        if t is None:
            r.bad("reach-id:%d" % k, "a reachable shape has no determinable identity type")
            continue
        tr = truth_by_type.get(C.ts(t))
        if tr is None:
            continue
        r.count("reachable_shapes")
        lay = C.f(sh, "layout")
        r.check(C.f(lay, "size") == tr["size"] and C.align(lay) == tr["align"], "reach-layout:" + C.ts(t),
                "a reachable shape that identifies as %s has another layout" % C.ts(t))
    r.floor("types", 205)
    r.floor("type_param_lists", 100)
    r.floor("reachable_shapes", 190)
    # every Facet impl of facet-core is represented
    cc = fx.crate("facet_core")
    have = set()
    for e in C.entries:
        t = C.types[e["truth"]["ty"]]
        have.add(head(C.types, e["truth"]["ty"]))
    for im in cc.d["impls"]:
        if im.get("trait", "").endswith("::Facet"):
            r.count("facet_impls")
            h = head(cc.types, im["self"])
            if h not in have:
                r.notes.append("Facet impl outside the corpus: " + cc.ts(im["self"]))
    r.floor("facet_impls", 57)


def head(types, k):
    t = types[k]
    if t["k"] == "adt":
        if t["def"].endswith("NonZero"):
            return t["def"] + "<" + types[t["args"][0]]["s"] + ">"
        return t["def"]
    if t["k"] == "ref":
        return "&" + head(types, t["args"][0])
    if t["k"] == "tuple":
        return "tuple%d" % len(t["args"])
    if t["k"] in ("array", "slice"):
        return t["k"]
    return t["s"]


# def kind -> (type predicate, [(def field, type argument)])
def elements(C, r, al, name, sh, tr, w):
    d = C.deref(C.f(sh, "def"))
    kind = d.get("var") if isinstance(d, dict) else None
    t = C.types[tr["ty"]]
    payload = d["f"].get("0") if kind else None
    want = []
    hd = t.get("def", "").split("::")[-1]
    if t["k"] == "array":
        exp = "Array"
        want = [("t", t["args"][0])]
        r.check(C.f(payload, "n") == tr.get("len"), "len:" + al, "array shape of %s says n=%s" % (name, C.f(payload, "n")), w)
    elif t["k"] == "ref" and C.types[t["args"][0]]["k"] == "slice":
        exp = "Slice"
        want = [("t", C.types[t["args"][0]]["args"][0])]
    elif hd == "Vec" and not tr.get("local"):
        exp, want = "List", [("t", t["args"][0])]
    elif hd in ("HashMap", "BTreeMap"):
        exp, want = "Map", [("k", t["args"][0]), ("v", t["args"][1])]
    elif hd == "Option":
        exp, want = "Option", [("t", t["args"][0])]
    elif hd in ("Arc", "NonNull"):
        exp, want = "SmartPointer", [("pointee", t["args"][0])]
    elif hd == "Weak":
        exp, want = "SmartPointer", []
    elif hd == "Opaque":
        exp, want = "SmartPointer", []
    elif t["k"] == "tuple" and t["args"]:
        exp = "Struct"
    elif tr.get("local") and tr.get("kind") == "struct" and not al.endswith("SmallHasher"):
        exp = "Struct"
    elif tr.get("local") and tr.get("kind") == "enum":
        exp = "Enum"
    else:
        exp = "Scalar"
    r.check(kind == exp, "kind:" + al, "%s is described as %s, it is %s" % (name, kind, exp), w)
    if kind != exp:
        return
    for fld, ty in want:
        v = C.f(payload, fld)
        if C.var(v) in ("Some", "None"):
            v = C.opt(v)
        got = C.shape_fn(v) if v is not None else None
        r.count("element_shapes")
        r.check(got is not None and same_type(C, got, ty), "elem:%s:%s" % (al, fld),
                lambda: "%s of %s is %s, it must be that of %s" % (fld, name, shape_desc(C, got), C.ts(ty)), w)
    if hd in ("Arc", "Weak", "NonNull", "Opaque"):
        known = C.var(C.opt(C.f(payload, "known")))
        wantk = {"Arc": "Arc", "Weak": "ArcWeak", "NonNull": "NonNull", "Opaque": "Arc"}[hd]
        r.check(known == wantk, "known:" + al, "%s is known as %s" % (name, known), w)
        for fld, other in (("weak", "Weak"), ("strong", "Arc")):
            v = C.f(payload, fld)
            if v is not None and C.is_some(v):
                s = C.shape_fn(C.opt(v))
                ti = C.id_type(s) if s is not None else None
                r.check(ti is not None and C.types[ti].get("def", "").endswith("::" + other)
                        and C.ts(C.types[ti]["args"][0]) == C.ts(t["args"][0]), "%s:%s" % (fld, al),
                        "%s shape of %s is %s" % (fld, name, shape_desc(C, s)), w)


def fields_check(C, r, key, name, got, want, w, opaque_ok=True):
    """got: list of Field values, want: list of truth fields (name, ty, off, attrs)"""
    if not r.check(got is not None and len(got) == len(want), key + ":count",
                   "%s: %s fields listed, %d declared" % (name, len(got) if got is not None else "no", len(want)), w):
        return
    for k, (g, x) in enumerate(zip(got, want)):
        r.count("fields")
        gn, go, gs = C.f(g, "name"), C.f(g, "offset"), C.shape_fn(C.f(g, "shape"))
        fk = "%s.%s" % (key, x["name"])
        r.check(gn == x["name"], fk + ":name", "%s: field %d is called %r, declared %r" % (name, k, gn, x["name"]), w)
        r.check(go == x["off"], fk + ":offset", "%s.%s: offset %s, the compiler places it at %s" % (name, x["name"], go, x["off"]), w,
                {"field": "%s.%s" % (name, x["name"]), "offset": go})
        ok = gs is not None and (type_matches(C, gs, x["ty"]) if opaque_ok else same_type(C, gs, x["ty"]))
        r.check(ok, fk + ":shape", lambda: "%s.%s: described by %s, declared type %s" % (name, x["name"], shape_desc(C, gs), C.ts(x["ty"])), w)


def struct_kind(ctor):
    # ctor kind as rustc prints it: Some(Fn) tuple, Some(Const) unit, None braces
    return {"Some(Fn)": "Tuple", "Some(Const)": "Unit"}.get(ctor, "Struct")


def c02(fx, r):
    C = corpus(fx)
    r.rule("for every struct and tuple of the corpus: kind, field count, and per field in declaration order name, "
           "compiler-computed offset and the shape of the declared type")
    for al, name, e, sh, tr in entries(C, r):
        t = C.types[tr["ty"]]
        d = C.deref(C.f(sh, "def"))
        kind = d.get("var") if isinstance(d, dict) else None
        if t["k"] == "tuple" and t["args"]:
            want, sk = tr["fields"], "Tuple"
        elif tr.get("local") and tr.get("kind") == "struct" and not al.endswith("SmallHasher"):
            v = tr["variants"][0]
            want = v["fields"]
            sk = {"Tuple": "TupleStruct"}.get(struct_kind(v["ctor"]), struct_kind(v["ctor"]))
        else:
            continue
        r.count("structs")
        if not r.check(kind == "Struct", "def:" + al, "%s is not described as a struct but as %s" % (name, kind), e["span"]):
            continue
        s = d["f"]["0"]
        r.check(C.var(C.f(s, "kind")) == sk, "skind:" + al, "%s: kind %s, declared %s" % (name, C.var(C.f(s, "kind")), sk), e["span"])
        fields_check(C, r, al, name, C.lst(C.f(s, "fields")), want, e["span"])
    r.floor("structs", 75)
    r.floor("fields", 230)


REPR = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "usize": "USize",
        "i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64", "isize": "ISize"}
REPR_SIZE = {"U8": 1, "U16": 2, "U32": 4, "U64": 8, "USize": 8, "I8": 1, "I16": 2, "I32": 4, "I64": 8, "ISize": 8}


def c03(fx, r):
    C = corpus(fx)
    r.rule("for every enum of the corpus: representation (width, signedness when stated), tag at offset 0, one variant "
           "per declared variant in order with its name, discriminant, kind and per-field name/offset/shape")
    for al, name, e, sh, tr in entries(C, r):
        if not (tr.get("local") and tr.get("kind") == "enum"):
            continue
        r.count("enums")
        w = e["span"]
        d = C.deref(C.f(sh, "def"))
        if not r.check(d.get("var") == "Enum", "def:" + al, "%s is not described as an enum" % name, w):
            continue
        ed = d["f"]["0"]
        rep = C.var(C.f(ed, "repr"))
        int_stated = "int: Some" in tr["repr"].replace("\n", "") and "Pointer" not in "" and not _c_only(tr["repr"])
        if "tagsize" in tr:
            r.check(REPR_SIZE.get(rep) == tr["tagsize"], "tagsize:" + al,
                    "%s: representation %s is %s bytes wide, the tag is %s" % (name, rep, REPR_SIZE.get(rep), tr["tagsize"]), w)
            r.check(tr["tagdirect"] and tr["tagoff"] == 0, "tagpos:" + al, "%s: tag is not stored directly at offset 0" % name, w)
        if int_stated:
            r.check(rep == REPR[tr["dty"]], "repr:" + al, "%s: representation %s, declared %s" % (name, rep, tr["dty"]), w)
        vs = C.lst(C.f(ed, "variants")) or []
        if not r.check(len(vs) == len(tr["variants"]), "nvar:" + al, "%s: %d variants listed, %d declared" % (name, len(vs), len(tr["variants"])), w):
            continue
        for g, x in zip(vs, tr["variants"]):
            r.count("variants")
            vk = "%s::%s" % (al, x["name"])
            r.check(C.f(g, "name") == x["name"], vk + ":name", "%s: variant %r listed where %r is declared" % (name, C.f(g, "name"), x["name"]), w)
            r.check(C.f(g, "discriminant") == x["discr"], vk + ":discr", "%s::%s: discriminant %s, the compiler assigns %s" % (
                name, x["name"], C.f(g, "discriminant"), x["discr"]), w, {"variant": vk, "discriminant": x["discr"]})
            data = C.f(g, "data")
            sk = struct_kind(x["ctor"])
            gk = C.var(C.f(data, "kind"))
            r.check(gk == sk or (sk == "Tuple" and gk == "TupleStruct"), vk + ":kind", "%s::%s: kind %s, declared %s" % (name, x["name"], gk, sk), w)
            want = []
            for f in x["fields"]:
                f = dict(f)
                if sk == "Tuple":
                    f["name"] = "_" + f["name"]
                want.append(f)
            got = C.lst(C.f(data, "fields"))
            # positional fields: accept "0" as well as "_0"
            if sk == "Tuple" and got:
                for i, f in enumerate(want):
                    if i < len(got) and C.f(got[i], "name") == f["name"][1:]:
                        f["name"] = f["name"][1:]
            fields_check(C, r, vk, "%s::%s" % (name, x["name"]), got, want, w)
    r.floor("enums", 32)
    r.floor("variants", 100)
    r.floor("fields", 115)


def _c_only(rep):
    return "int: None" in rep or ("IS_C" in rep and "Some(" not in rep)


# ------------------------------------------------------------------ C04
def parse_facet(attrs):
    """list of attribute strings as written -> list of (kind, arg)"""
    out = []
    for a in attrs:
        a = a.strip()
        if a == "sensitive":
            out.append(("Sensitive", None))
        elif a == "default":
            out.append(("Default", None))
        elif a.startswith("default") and "=" in a:
            out.append(("DefaultFn", a.split("=", 1)[1].strip().strip('"')))
        elif a.startswith("rename") and "=" in a:
            out.append(("Rename", a.split("=", 1)[1].strip().strip('"')))
        elif a == "opaque":
            out.append(("Opaque", None))
        elif a == "deny_unknown_fields":
            out.append(("DenyUnknownFields", None))
        elif a == "transparent":
            out.append(("Transparent", None))
        elif a.startswith("invariants"):
            out.append(("Invariants", a.split("=", 1)[1].strip().strip('"')))
        else:
            out.append(("Arbitrary", a))
    return out


def norm(s):
    return "".join((s or "").split())


def callees(C, inst, depth=0, seen=None):
    """names of everything a function instance calls, through inspectable callees"""
    seen = seen if seen is not None else set()
    if inst in seen or depth > 30:
        return []
    seen.add(inst)
    out = []
    b = C.insts[inst].get("body")
    if not b:
        return [C.insts[inst]["name"]]
    for blk in b["blocks"]:
        if blk["cl"]:
            continue
        t = blk["t"]
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            fn = t[1][1]["fn"]
            out.append(fn.get("rname") or fn["name"])
            if "inst" in fn:
                out += callees(C, fn["inst"], depth + 1, seen)
    return out


def docs_of(C, v):
    return [C.deref(x) for x in (C.lst(v) or [])]


def field_attrs(C, r, key, name, g, x, w):
    want = parse_facet(x.get("attrs", {}).get("facet", []))
    r.count("attributed_fields" if want else "plain_fields")
    ga = C.lst(C.f(g, "attributes")) or []
    got = []
    for a in ga:
        v = C.var(a)
        p = C.f(a, "0")
        if v == "Default":
            if C.is_some(p):
                got.append(("DefaultFn", C.opt(p)))
            else:
                got.append(("Default", None))
        else:
            got.append((v, p))
    flags = C.f(C.f(C.f(g, "flags"), "0"), "0")
    sens = any(k == "Sensitive" for k, _ in want)
    r.check((flags == 1) == sens and flags in (0, 1), key + ":flags",
            "%s: flags %s, declared %ssensitive" % (name, flags, "" if sens else "not "), w)
    exp = [(k, a) for k, a in want if k in ("Sensitive", "Default", "DefaultFn", "Rename", "Arbitrary")]
    ok = len(exp) == len(got)
    if ok:
        rest = list(got)
        for k, a in exp:
            hit = None
            for q in rest:
                if q[0] != k:
                    continue
                if k == "DefaultFn":
                    cs = callees(C, q[1]["inst"]) if isinstance(q[1], dict) and "inst" in q[1] else []
                    if not any(c.split("::")[-1] == a.split("::")[-1] for c in cs):
                        continue
                elif k == "Rename" and C.deref(q[1]) != a:
                    continue
                elif k == "Arbitrary" and norm(C.deref(q[1])) != norm(a):
                    continue
                hit = q
                break
            if hit is None:
                ok = False
                break
            rest.remove(hit)
    r.check(ok, key + ":attrs", lambda: "%s: attributes %s, declared %s" % (
        name, [(k, a if not isinstance(a, dict) else "fn") for k, a in got], want), w,
        {"field": name, "attributes": [str(k) for k, _ in exp]} if exp else None)
    wd = x.get("attrs", {}).get("doc", [])
    gd = docs_of(C, C.f(g, "doc"))
    r.count("docs", len(wd))
    r.check(gd == wd, key + ":doc", "%s: doc lines %r, written %r" % (name, gd, wd), w)
    if any(k == "Opaque" for k, _ in want):
        s = C.shape_fn(C.f(g, "shape"))
        t = C.id_type(s) if s is not None else None
        r.check(s is not None and t is not None and not (C.opt(C.f(C.f(C.f(s, "def"), "0"), "pointee"))), key + ":opaque",
                "%s: opaque field exposes its pointee" % name, w)


def c04(fx, r):
    C = corpus(fx)
    r.rule("for every derived type: field flags and attributes, container attributes, doc lines of container, fields "
           "and variants equal the ones written in the declaration; default functions call the named function; "
           "invariants call the named method")
    for al, name, e, sh, tr in entries(C, r):
        if not tr.get("local") or al.endswith("SmallHasher"):
            continue
        w = e["span"]
        r.count("declarations")
        wd = tr["attrs"]["doc"]
        gd = docs_of(C, C.f(sh, "doc"))
        r.check(gd == wd, "doc:" + al, "%s: doc lines %r, written %r" % (name, gd, wd), w)
        cont = parse_facet(tr["attrs"]["facet"])
        gc = [C.var(a) for a in (C.lst(C.f(sh, "attributes")) or [])]
        CA = ("DenyUnknownFields", "Default", "DefaultFn", "Transparent")
        want = sorted({"DefaultFn": "Default"}.get(k, k) for k, _ in cont if k in CA)
        r.count("container_attributes", len(want))
        r.check(sorted(g for g in gc if g != "Arbitrary") == want, "cattrs:" + al,
                "%s: container attributes %s, declared %s" % (name, gc, want), w)
        if tr["kind"] == "struct":
            inv = [a for k, a in cont if k == "Invariants"]
            gi = C.opt(C.f(C.f(sh, "vtable"), "invariants"))
            if inv:
                cs = callees(C, gi["inst"]) if isinstance(gi, dict) and "inst" in gi else []
                r.check(all(any(c.split("::")[-1] == m for c in cs) for m in inv), "inv:" + al,
                        "%s: declared invariant method %s is not called by the shape's invariants" % (name, inv), w)
            else:
                r.check(gi is None, "inv:" + al, "%s: has an invariants function though none is declared" % name, w)
            d = C.deref(C.f(sh, "def"))
            gf = C.lst(C.f(d["f"].get("0"), "fields")) if isinstance(d, dict) and d.get("var") == "Struct" else None
            if gf is not None:
                for g, x in zip(gf, tr["variants"][0]["fields"]):
                    field_attrs(C, r, "%s.%s" % (al, x["name"]), "%s.%s" % (name, x["name"]), g, x, w)
        else:
            d = C.deref(C.f(sh, "def"))
            vs = C.lst(C.f(d["f"].get("0"), "variants")) or []
            for g, x in zip(vs, tr["variants"]):
                vd = docs_of(C, C.f(g, "doc"))
                r.count("docs", len(x["attrs"]["doc"]))
                r.check(vd == x["attrs"]["doc"], "vdoc:%s::%s" % (al, x["name"]),
                        "%s::%s: doc lines %r, written %r" % (name, x["name"], vd, x["attrs"]["doc"]), w)
                for gf, xf in zip(C.lst(C.f(C.f(g, "data"), "fields")) or [], x["fields"]):
                    field_attrs(C, r, "%s::%s.%s" % (al, x["name"], xf["name"]), "%s::%s.%s" % (name, x["name"], xf["name"]), gf, xf, w)
    r.floor("declarations", 85)
    r.floor("attributed_fields", 16)
    r.floor("container_attributes", 6)
    r.floor("docs", 7)


# ------------------------------------------------------------------ C05
SLOTS = [("display", "Display"), ("debug", "Debug"), ("default_in_place", "Default"), ("clone_into", "Clone"),
         ("eq", "PartialEq"), ("partial_ord", "PartialOrd"), ("ord", "Ord"), ("hash", "Hash"), ("parse", "FromStr")]
MARK = [("EQ", "Eq"), ("SEND", "Send"), ("SYNC", "Sync"), ("COPY", "Copy"), ("UNPIN", "Unpin")]


def marker_bits(fx):
    cc = fx.crate("facet_core")
    out = {}
    for k, v in cc.d["consts"]:
        pass
    return out


def c05(fx, r):
    C = corpus(fx)
    r.rule("value-table slot present iff the compiler proves the trait for the type (derived types: both directions; "
           "built-in containers: no slot or marker without the trait, and no missing slot beyond the frozen list)")
    bits = {"EQ": 1, "SEND": 2, "SYNC": 4, "COPY": 8, "UNPIN": 16}
    for al, name, e, sh, tr in entries(C, r):
        w = e["span"]
        vt = C.f(sh, "vtable")
        t = C.types[tr["ty"]]
        derived = tr.get("local")
        hd = head(C.types, tr["ty"]).split("::")[-1].split("<")[0]
        if hd.startswith("tuple"):
            hd = "tuple"
        marks = C.f(C.f(C.f(vt, "marker_traits"), "0"), "0")
        tps = [C.shape_fn(C.f(p, "shape")) for p in (C.lst(C.f(sh, "type_params")) or [])]

        def elems_have(slot):
            for es in tps[:2]:  # the hasher of a map is not an element
                if es is None:
                    return False
                ev = C.f(es, "vtable")
                if slot in bits:
                    if not ((C.f(C.f(C.f(ev, "marker_traits"), "0"), "0") or 0) & bits[slot]):
                        return False
                elif not C.is_some(C.f(ev, slot)):
                    return False
            return True

        for slot, trait in SLOTS:
            r.count("slots")
            got = C.is_some(C.f(vt, slot))
            imp = tr["traits"][trait]
            if got and not imp and (hd, slot) in EXTRA_OK and elems_have(slot):
                r.ok()
            elif got and not imp:
                r.bad("extra:%s:%s" % (al, slot), "%s offers %s though the type does not implement %s" % (name, slot, trait), w)
            elif imp and not got:
                if not derived and ((hd, slot) in MISSING_OK or not elems_have(slot)):
                    r.ok()
                else:
                    r.bad("missing:%s:%s" % (al, slot), "%s implements %s but its table has no %s" % (name, trait, slot), w)
            else:
                r.ok({"type": name, "slot": slot, "present": got})
        for m, trait in MARK:
            r.count("markers")
            got = bool((marks or 0) & bits[m]) if marks is not None else None
            imp = tr["traits"][trait]
            if got is None:
                r.bad("marks:" + al, "marker traits of %s cannot be read" % name, w)
            elif got and not imp:
                r.bad("extra-mark:%s:%s" % (al, m), "%s is marked %s though the type is not %s" % (name, m, trait), w)
            elif imp and not got:
                if not derived and ((hd, m) in MISSING_OK or not elems_have(m)):
                    r.ok()
                elif tr.get("tparams") and m in ("SEND", "SYNC", "UNPIN"):
                    r.ok()  # generic declaration: auto traits cannot be decided where the table is built
                else:
                    r.bad("missing-mark:%s:%s" % (al, m), "%s is %s but is not marked %s" % (name, trait, m), w)
            else:
                r.ok()
        dr = C.is_some(C.f(vt, "drop_in_place"))
        r.count("slots")
        r.check(dr or not tr["needs_drop"], "drop:" + al, "%s needs dropping but its table has no drop_in_place" % name, w)
    r.floor("types", 205)
    r.floor("slots", 2000)
    r.floor("markers", 1000)


# what today's tree does not offer although the type has it; nothing else may disappear
MISSING_OK = set()
for _h, _slots in {
    "Option": "clone_into eq partial_ord ord hash EQ SEND SYNC COPY UNPIN",
    "Arc": "display debug default_in_place eq partial_ord ord hash EQ SEND SYNC",
    "Weak": "SEND SYNC",
    "Vec": "partial_ord ord",
    "BTreeMap": "partial_ord ord",
    "PhantomData": "SEND SYNC UNPIN",
    "tuple": "default_in_place clone_into partial_ord ord hash",
}.items():
    for _s in _slots.split():
        MISSING_OK.add((_h, _s))
# offered although std does not implement the trait for the container, element by element
EXTRA_OK = {("array", "display"), ("Option", "parse"), ("HashMap", "hash"), ("Opaque", "clone_into")}
