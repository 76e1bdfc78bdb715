"""The readers of documents that other crates parse: YAML, TOML, form-encoded data."""
from . import flow, vt
from .absint import K, add, atom, is_lin, num
from .poly import item_of
from .vt import fname
from . import c_json, c_jsonread
from .c_jsonread import Read

CRATES = ("facet_yaml", "facet_toml", "facet_urlencoded")


def policy_of(cr):
    def policy(c, fn):
        if c.crate.name == cr and "::fmt" != c.id[-5:] and "::fmt::" not in c.id:
            return c.id.split("::")[-1] not in ("from_ref",)
        return c_json.policy(c, fn) and c.crate.name != c_json.CR
    return policy


def program(fx, cr):
    p = flow.PolyProgram(fx, ["facet_core", "facet_reflect", cr], models=True)

    def variants(end):
        a = next((a for a in fx.crate("facet_core").d["adts"] if a["id"].endswith("::" + end) and a.get("variants")), None)
        return {v["name"]: i for i, v in enumerate(a["variants"])} if a else {}
    p.defs, p.kinds, p.attrs = variants("Def"), variants("StructKind"), variants("FieldAttribute")
    return p


def within(x, v):
    return x == v or isinstance(v, tuple) and any(within(x, y) for y in v)


class Doc(Read):
    def call(self, st, bi, f, args, t, dt):
        if isinstance(f, dict):
            it, nm = item_of(f), fname(f)
            D = [self.deref(st, a) for a in args]
            if it == "keys" and len(args) == 1 and "Map" in nm:
                return [(st, self.piter(("sym", ("keys", self.name(D[0])))))]
            if it in ("get", "contains_key") and len(args) == 2 and "Map" in nm and within(("sym", ("keys", self.name(D[0]))), D[1]):
                # a key that was found there
                return [(st, self.some(("sym", ("valueof", self.name(D[0]), self.name(D[1])))) if it == "get" else True)]
            if it in ("deref", "as_str", "borrow", "as_ref") and len(args) == 1 and isinstance(self.name(D[0]), tuple) and self.name(D[0])[:1] == ("[]",) and within("keys", D[0]):
                return [(st, self.whole(self.name(D[0])))]
            if it in ("variant", "variant_named") and "Wip" in nm:
                return [(st, self.okv(("sym", ("selected", self.new())))), (st.copy(), self.errv(("sym", ("no variant", self.new()))))]
            if it == "selected_variant" and "Wip" in nm and self.chosen(D[0]):
                return [(st, self.some(("sym", ("variant of", self.name(D[0])))))]
            if it in ("find", "rfind") and len(args) == 2 and isinstance(D[0], tuple) and D[0] and D[0][0] == "sl" and is_lin(D[1]):
                n = num(D[1])
                w = 1 if n is None or n < 128 else 2
                x = ("s", "usize", ("found", self.new()))
                self.ranges[x] = (0, (1 << 63) - 1)
                self.places[x] = (D[0][1], add(D[0][2], atom(x)), w if n is not None and n < 128 else 0, n)
                a = st.copy()
                a.facts = a.facts + (add(add(self.length(st, D[0]), atom(x), -1), K(-w)),)
                return [(a, self.some(atom(x))), (st, self.NONE)]
            if it in ("index", "index_mut", "split_at") and len(args) == 2 and isinstance(D[0], tuple) and D[0] and D[0][0] == "sl" and "str" in (self.argtype(bi, t, 0) or ""):
                n = self.length(st, D[0])
                se = self.ranged(D[1], n) if not is_lin(D[1]) else (D[1],)
                for e in se or ():
                    if not (is_lin(e) and self.between(st, D[0][1], add(D[0][2], e), D[0][3])):
                        self.outs.append(("panic", "a text is cut where there may be no boundary between characters", st, bi))
            if it in ("split_at", "split_at_mut") and len(args) == 2 and isinstance(D[0], tuple) and D[0] and D[0][0] == "sl" and is_lin(D[1]):
                at = add(D[0][2], D[1])
                if self.holds(st, add(D[0][3], at, -1)) is not True:
                    self.outs.append(("panic", "split where there may be nothing", st, bi))
                a = st.copy()
                a.facts = a.facts + (add(D[0][3], at, -1), D[1])
                return [(a, ("agg", "tuple", 0, (("sl", D[0][1], D[0][2], at), ("sl", D[0][1], at, D[0][3]))))]
        return Read.call(self, st, bi, f, args, t, dt)

    def between(self, st, src, e, end):
        """there is a boundary between characters there"""
        if num(e) == 0 or self.zero(st, e) is True or self.zero(st, add(e, end, -1)) is True:
            return True
        for of, at, w, _ in self.places.values():
            k = num(add(e, at, -1))
            if of == src and k is not None and 0 <= k <= w:
                return True
        return False

    def __init__(self, *a, **k):
        Read.__init__(self, *a, **k)
        self.places = {}        # what was found in a text -> the text, where, how far its end is, what it is

    def chosen(self, v):
        """a Wip whose variant has just been selected"""
        n = self.name(v)
        return isinstance(n, tuple) and n[:1] == ("selected",)


def c29(fx, r):
    """no document makes the YAML, TOML or form readers panic"""
    r.rule("every path of every function of facet-yaml, facet-toml and facet-urlencoded, with any answer of the crates that parse and of the reflection layer: nothing that can be absent or an error is "
           "unwrapped, no index or slice is out of bounds, no arithmetic overflows, nothing is left to be done")
    for cr in CRATES:
        c_jsonread.nopanic(fx, r, program(fx, cr), cr, "::", policy_of(cr), Doc)
    r.floor("functions", 12)
