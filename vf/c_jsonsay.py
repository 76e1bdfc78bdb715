"""JSON: what the reader stores is what its input says"""
from . import flow, vt
from .absint import INTS, K, Undecided, add, atom, is_lin, mul, num
from .poly import item_of
from .vt import fname
from . import c_jsonread
from .c_json import CR, policy, program
from .c_jsonread import MODULE, Read, callgraph, nearest, reaches
from .c_msgpack import okret, targ

ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
DBG = False
LITS = {"true": True, "false": False, "null": None}
NUMBER = b"0123456789."


def parts(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo.extend(x)


def bytevec(t):
    return "Vec<u8" in t or "String" in t


class Say(Read):
    ghosts = (("lit",), ("ends",), ("match",), ("closed",), ("told",), ("evs",), ("dot",))

    def __init__(self, *a, **k):
        Read.__init__(self, *a, **k)
        self.digits = {}
        self.lazy, self.unasked, self.modes = set(), {}, set()
        g = self.g
        self.filling = set()        # loops in which the bytes of a text are collected
        for h, body in self.heads.items():
            for b in body:
                t = g.blocks[b]["t"]
                f = g.fnval(t) if t[0] == "call" else None
                if isinstance(f, dict) and item_of(f) in ("push", "push_str", "extend", "extend_from_slice") and t[2] and bytevec(self.argtype(b, t, 0) or ""):
                    if not any(h2 != h and b in b2 and b2 < body for h2, b2 in self.heads.items()):
                        self.filling.add(h)
        self.inputs = [("arg", l) for l in g.argl if self.lname(l).replace("'", "").endswith("[u8]") or self.lname(l).endswith("str")]
        self.texts = [0, 0]         # numbers handed on as text, as f64
        self.n = {}

    def count_(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def say(self, k, what, st, bi):
        self.outs.append(("say", (k, what), st, bi))

    def start(self):
        st = Read.start(self)
        for k in self.ghosts:
            st.conds[k] = None
        st.conds[("evs",)] = ()
        return st

    # ------------------------------------------------------------ what is known of the input
    def eqs(self, st, at, c):
        """is the byte of the input there known to be c"""
        for s in self.inputs:
            y = add(self.inbyte(s, at), K(c), -1)
            if self.holds(st, y) is True and self.holds(st, mul(y, -1)) is True:
                return True
        return False

    def may(self, st, at, c):
        for s in self.inputs:
            y = add(self.inbyte(s, at), K(c), -1)
            if self.holds(st, y) is False or self.holds(st, mul(y, -1)) is False:
                return False
            z = self.binop(st, "Eq", self.inbyte(s, at), K(c), None)
            if not any(b for a, b in self.cond(st, z)):
                return False
        return True

    def ranged_(self, st, at, lo, hi):
        for s in self.inputs:
            b = self.inbyte(s, at)
            if self.holds(st, add(b, K(lo), -1)) is True and self.holds(st, add(K(hi), b, -1)) is True:
                return True
        return False

    # ------------------------------------------------------------ loops
    def turn(self, st, h):
        """where this turn of the loop began to read: (where it began the first time, now)"""
        e = next((e for e in reversed(st.events) if e[0] == "enter" and e[1] == h), None)
        b = st.conds.get(("began", h))
        if e is None or not b:
            return None
        for root, path, first, now in e[2]:
            if (root, path) == b[1:]:
                return root, path, first, now
        return None

    def forget(self, st, head, body):
        old = dict(st.mem)
        Read.forget(self, st, head, body)
        e = st.events[-1]
        for root, v in old.items():
            w = st.mem.get(root)
            if isinstance(v, bool) and isinstance(w, tuple) and w[:1] == ("sym",) and isinstance(root, int):
                st.conds[("flag", head, root)] = (w[1], v)
        b = s = None
        for root, path, first, now in e[2]:
            if not is_lin(first) or not first[2]:
                continue
            if self.eqs(st, add(first, K(1), -1), 34):
                b, s = ("str", root, path), first
            elif self.ranged_(st, add(first, K(1), -1), 48, 57) or self.eqs(st, add(first, K(1), -1), 45):
                b, s = ("num", root, path), add(first, K(1), -1)
            elif self.ranged_(st, first, 48, 57) or self.eqs(st, first, 45):
                b, s = ("num", root, path), first
        st.conds[("began", head)] = b
        st.conds[("from", head, b and b[0])] = s
        if b is not None or head in self.filling:
            st.conds[("told",)] = None
            st.conds[("evs",)] = ()
            st.conds[("empty",)] = None
            st.conds[("closed",)] = None

    def alsobytes(self, st):
        """bytes of which it matters what they are, though nothing holds them"""
        out = set()
        for h in st.loops:
            b = st.conds.get(("began", h))
            w = self.turn(st, h) if b and b[0] == "num" else None
            v = w and self.at_path(st, w[0], w[1])
            if v is not None and is_lin(v):
                for s in self.inputs:
                    self.bytesin(self.inbyte(s, v), out)
        return out

    def flags(self, st):
        """what is kept track of in a truth value that a loop changes"""
        for k, x in list(st.conds.items()):
            if isinstance(k, tuple) and k[0] == "flag" and isinstance(x, tuple) and isinstance(st.conds.get(x[0]), int):
                st.conds = dict(st.conds)
                t = bool(st.conds[x[0]]) == x[1]
                if k[1] in self.filling and st.conds.get(("empty",)) is None:
                    st.conds[("empty",)] = t
                    self.modes.add(k[1:])
                if not t and st.conds.get(("match",)) is None:
                    st.conds[("match",)] = "gone"

    def meet(self, st, bi):
        self.flags(st)
        for h in st.loops:
            if st.conds.get(("began", h)) and st.conds[("began", h)][0] == "str":
                c = self.told(st, h)
                if c != st.conds.get(("told",)):
                    st.conds = dict(st.conds)
                    st.conds[("told",)] = c
        return Read.meet(self, st, bi)

    def told(self, st, h):
        """what the byte is that this turn of a loop over a text is about, and the one after it"""
        old = st.conds.get(("told",))
        if old == "gone" or old is not None and old[0] != "bs" or old is not None and old[1] is not None:
            return old
        w = self.turn(st, h)
        if w is None:
            return None
        p = w[3]
        if old is None:
            if self.eqs(st, p, 34):
                return ("quote", None)
            if not self.eqs(st, p, 92):
                if not self.may(st, p, 34) and not self.may(st, p, 92):
                    return ("plain", None)
                return None
        q = add(p, K(1))
        for c in list(ESC) + [117]:
            if self.eqs(st, q, c):
                return ("bs", c)
        return ("bs", None)

    def enter(self, st, bi, frm):
        for h in st.loops:
            b = st.conds.get(("began", h))
            if b and frm in self.heads[h] and bi not in self.heads[h]:
                w = self.turn(st, h)
                v = w and self.at_path(st, w[0], w[1])
                if v is None or not is_lin(v):
                    continue
                if b[0] == "num" and v == w[3]:
                    self.count_("ends of numbers")
                    if not any(self.holds(st, add(v, atom(y), -1)) is True for y in self.lens):
                        c = next((c for c in (NUMBER if not self.cells else NUMBER[:10]) if self.may(st, v, c)), None)
                        if c is not None:
                            self.say("number:end", "a number is taken to end before a `%c`" % c, st, frm)
                    st = st.copy()
                    st.conds[("ends",)] = v
                if b[0] == "str":
                    c = self.told(st, h)
                    if c and c[0] == "quote" and c != "gone":
                        st = st.copy()
                        st.conds[("closed",)] = w[3]
                        st.conds[("ends",)] = add(w[3], K(1))
        return Read.enter(self, st, bi, frm)

    def again(self, st, bi):
        b = st.conds.get(("began", bi))
        r = Read.again(self, st, bi)
        if b and b[0] == "str":
            self.stringturn(st, bi)
        if not b and bi == min(self.heads, key=lambda h: -len(self.heads[h])):
            e = st.conds.get(("ends",))
            if is_lin(e):
                live = [v for root, v in st.mem.items() if root in self.live(bi) or root in self.cells]
                self.count_("ends of values")
                if e not in live and any(is_lin(v) and num(add(v, e, -1)) not in (None, 0) for v in live):
                    self.say("value:end", "what comes after a value isn't read from where it ends", st, bi)
        return r

    def stringturn(self, st, h):
        c = self.told(st, h)
        w = self.turn(st, h)
        evs = st.conds.get(("evs",))
        if not c or c == "gone" or w is None or evs == "gone":
            self.count_("turns undecided")
            return
        v = self.at_path(st, w[0], w[1])
        if v is None or not is_lin(v) or num(add(v, w[3], -1)) is None:
            self.count_("turns undecided")
            return
        n = num(add(v, w[3], -1))
        self.count_("turns over a text's characters")
        fills = h in self.filling
        if any(e[0] == "?" for e in evs):
            self.count_("turns undecided")
            return
        exts = [e for e in evs if e[0] == "ext"]
        rest = [e for e in evs if e[0] != "ext"]
        empty = st.conds.get(("empty",))
        for e in exts:
            if not (e[1] == st.conds.get(("from", h, "str")) and e[2] == w[3] and empty is True):
                self.say("text:before", "what comes before an escape isn't taken over once and as it is", st, h)
        for hh, root in self.modes:
            k = st.conds.get(("flag", h, root))
            if hh == h and exts and isinstance(k, tuple) and st.mem.get(root) is k[1]:
                self.say("text:before", "what comes before an escape isn't taken over once and as it is", st, h)
        if c[0] == "plain":
            if n != 1:
                self.say("text:step", "a character of a text is skipped or read twice", st, h)
            elif fills and not evs and empty is not True:
                self.say("text:lost", "a character of a text is lost", st, h)
            elif fills and not evs:
                self.lazy.add(h)
            elif len(rest) > 1:
                self.say("text:twice", "a character of a text is taken twice", st, h)
        elif c[0] == "bs":
            want = 2
            if c[1] == 117 and fills:
                want = rest[0][1] if len(rest) == 1 and rest[0][0] == "chr" else None
            if want is not None and n != want:
                self.say("text:step", "reading goes on at another place than after an escape sequence", st, h)
            if fills and len(rest) != 1:
                self.say("text:lost", "an escaped character of a text is lost or taken twice", st, h)
            if fills and empty is None and not exts:
                self.unasked[h] = (st, h)
            if fills and empty is True and not exts:
                self.say("text:before", "what comes before the first escape of a text is lost", st, h)
        elif c[0] == "quote":
            self.say("text:quote", "a text goes on after its closing quote", st, h)

    # ------------------------------------------------------------ what happens
    def within_(self, st):
        return next((h for h in reversed(st.loops) if h in self.filling and st.conds.get(("began", h)) and st.conds[("began", h)][0] == "str"), None)

    def pushed(self, st, v, bi):
        """a byte is added to a text"""
        h = self.within_(st)
        if h is None:
            return ("?",)
        c, w = self.told(st, h), self.turn(st, h)
        if not c or c == "gone" or w is None or not is_lin(v):
            return ("?",)
        self.count_("characters taken over")
        here = [self.inbyte(s, w[3]) for s in self.inputs]
        after = [self.inbyte(s, add(w[3], K(1))) for s in self.inputs]
        if c[0] == "plain":
            if v not in here:
                self.say("text:other", "another character is taken over than the one that was read", st, bi)
            return ("push",)
        if c[0] == "bs":
            if c[1] is None:
                if v in after or num(v) is not None:
                    self.say("text:escape", "an escape is taken for a character without a look at which one it is", st, bi)
                    return ("push",)
                return ("?",)
            if c[1] == 117:
                return ("?",)
            if not (num(v) == ESC[c[1]] or v in after and ESC[c[1]] == c[1]):
                self.say("text:escape", "the escape `\\%c` is taken for another character than it stands for" % c[1], st, bi)
            return ("push",)
        return ("?",)

    def code(self, st, x, bi):
        """a character given by its number, as \\u does: how far it reaches, or None"""
        h = self.within_(st)
        w = h is not None and self.turn(st, h)
        if not w or not is_lin(x):
            return None
        at = []
        for a, k in x[2]:
            d = self.digits.get(a)
            if d is None:
                return None
            o = next((num(add(p, w[3], -1)) for p in [d] if num(add(p, w[3], -1)) is not None), None)
            if o is None:
                return None
            at.append((o, k))
        at.sort()
        one = [(2 + i, 16 ** (3 - i)) for i in range(4)]
        two = [(o, k * 1024) for o, k in one] + [(8 + i, 16 ** (3 - i)) for i in range(4)]
        self.count_("characters given by number")
        if at == one and x[1] == 0:
            return 6
        if at == two and x[1] == 0x10000 - 0xd800 * 0x400 - 0xdc00:
            hi = mul(("lin", 0, tuple((a, k) for a, k in x[2] if num(add(self.digits[a], w[3], -1)) < 6)), 1)
            hi = ("lin", 0, tuple((a, k // 1024) for a, k in hi[2]))
            lo = ("lin", 0, tuple((a, k) for a, k in x[2] if num(add(self.digits[a], w[3], -1)) > 6))
            for y, l, u in ((hi, 0xd800, 0xdbff), (lo, 0xdc00, 0xdfff)):
                if self.holds(st, add(y, K(l), -1)) is not True or self.holds(st, add(K(u), y, -1)) is not True:
                    self.say("text:surrogates", "two escapes are taken for one character though they may not be a surrogate pair", st, bi)
            s = st.conds.get(("lit",))
            if not (self.eqs(st, add(w[3], K(6)), 92) and self.eqs(st, add(w[3], K(7)), 117)) and s != ("\\u", add(w[3], K(6))):
                self.say("text:surrogates", "what comes after a high surrogate is taken for an escape without being one", st, bi)
            return 12
        self.say("text:number", "the character that \\u stands for isn't the one with the number given in hexadecimal", st, bi)
        return None

    def call(self, st, bi, f, args, t, dt):
        if not isinstance(f, dict) or not args:
            return Read.call(self, st, bi, f, args, t, dt)
        it, nm = item_of(f), fname(f)
        D = [self.deref(st, a) for a in args]
        at = self.argtype(bi, t, 0) or ""
        wip = "Wip" in at and "Wip" in nm
        d = vt.fdef(f)
        if bytevec(at) and "Vec<&" not in at and it in ("push", "extend", "extend_from_slice", "push_str", "append") and len(args) == 2:
            e = ("?",)
            x = D[1]
            if it == "push" and is_lin(x):
                e = self.pushed(st, x, bi)
            elif isinstance(x, tuple):
                u = next((y for y in parts(x) if len(y) == 2 and y[0] == "char of"), None)
                if u is not None:
                    n = self.code(st, u[1], bi)
                    e = ("chr", n) if n is not None else ("?",)
                elif x[:1] == ("sl",) and x[1] in self.inputs:
                    e = ("ext", x[2], x[3])
            a = st.copy()
            a.conds[("evs",)] = (a.conds.get(("evs",)) or ()) + (e,) if a.conds.get(("evs",)) != "gone" else "gone"
            return Read.call(self, a, bi, f, args, t, dt) or [(a, self.UNIT)]
        if it == "is_empty" and bytevec(at) and "Vec<&" not in at and isinstance(D[0], tuple) and D[0][:1] in (("pieces",), ("sym",)):
            evs = st.conds.get(("evs",))
            if D[0] == ("pieces", ()):
                return [(st, True)]
            if evs == "gone" or any(e[0] != "ext" for e in evs or ()):
                return [(st, False)]
            if not evs:
                out = []
                for x in (True, False):
                    if st.conds.get(("empty",)) in (None, x):
                        a = st.copy()
                        a.conds[("empty",)] = x
                        out.append((a, x))
                return out
        if it == "len" and bytevec(at) and "Vec<&" not in at and D[0] == ("pieces", (("more",),)) and not st.conds.get(("evs",)):
            out = []
            for x in (True, False):
                if st.conds.get(("empty",)) in (None, x):
                    a = st.copy()
                    a.conds[("empty",)] = x
                    n = K(0)
                    if not x:
                        n = atom(("s", "usize", ("filled", self.new())))
                        a.facts = a.facts + (add(n, K(1), -1),)
                    out.append((a, n))
            return out
        if it == "to_digit" and len(D) == 2 and num(D[1]) == 16 and is_lin(D[0]):
            out = Read.call(self, st, bi, f, args, t, dt)
            for s in self.inputs:
                for a, k in D[0][2]:
                    if a[0] == "byte" and k == 1 and D[0][1] == 0 and len(D[0][2]) == 1:
                        for _, v in out or ():
                            for y in parts(v):
                                if y[:2] == ("s", "u32"):
                                    self.digits[y] = add(a[1][1], K(a[2]))
            return out
        if it in ("from_u32", "from_u32_unchecked") and "char" in nm and is_lin(D[0]):
            v = ("sym", ("char of", D[0]))
            return [(st, self.some(v)), (st.copy(), self.NONE)] if it == "from_u32" else [(st, v)]
        if it in ("encode_utf8", "to_string", "as_bytes", "into_bytes") and isinstance(D[0], tuple) and any(y[:1] == ("char of",) for y in parts(D[0])):
            return [(st, ("refv", D[0]) if it != "to_string" else D[0])]
        if it == "index" and len(D) == 2 and "RangeFull" in (self.argtype(bi, t, 1) or "") and isinstance(D[0], tuple) and D[0][:1] in (("bytes",), ("str",)):
            return [(st, D[0])]
        if it in ("eq", "ne") and len(D) == 2 and all(isinstance(x, tuple) and x[:2] == ("agg", "core::option::Option") for x in D):
            if D[0][2] != D[1][2]:
                return [(st, it == "ne")]
            if D[0][2] == 0:
                return [(st, it == "eq")]
            D = [self.deref(st, x[3][0]) for x in D]
        if it in ("starts_with", "eq", "ne") and len(D) == 2 and isinstance(D[0], tuple) and isinstance(D[1], tuple):
            x, y = D if D[0][:1] == ("sl",) else (D[1], D[0])
            y = self.deref(st, y)
            bs = None
            if x[:1] == ("sl",) and x[1] in self.inputs and isinstance(y, tuple):
                bs = bytes(y[1]) if y[:1] == ("bytes",) else y[1].encode() if y[:1] == ("str",) else bytes(num(z) for z in y[3]) if y[:2] == ("agg", "array") and all(is_lin(z) and num(z) is not None for z in y[3]) else None
            if bs:
                a, b = st.copy(), st.copy()
                a.conds[("lit",)] = (bs.decode("latin-1"), x[2])
                a.facts = a.facts + (add(add(x[3], x[2], -1), K(len(bs)), -1),)
                for i, c in enumerate(bs):
                    z = add(self.inbyte(x[1], add(x[2], K(i))), K(c), -1)
                    a.facts = a.facts + (z, mul(z, -1))
                if it == "starts_with" or self.length(st, x) == K(len(bs)):
                    return [(a, it != "ne"), (b, it == "ne")]
            elif x[:1] == ("sl",) and x[1] in self.inputs and it in ("eq", "ne", "starts_with"):
                a, b = st.copy(), st.copy()
                a.conds[("lit",)] = "gone"
                return [(a, it != "ne"), (b, it == "ne")]
            else:
                m = self.named(st, D)
                if m is not None and it in ("eq", "ne"):
                    a, b = st.copy(), st.copy()
                    a.conds[("match",)] = m
                    return [(a, it == "eq"), (b, it == "ne")]
        if it in ("from_utf8", "from_utf8_unchecked") and isinstance(D[0], tuple):
            self.text_(st, D[0], bi)
        if it == "parse" and "str" in nm and not wip and isinstance(D[0], tuple) and D[0][:1] == ("sl",):
            return [(st, self.okv(("sym", ("number", targ(self, bi, f), D[0])))), (st.copy(), self.errv(("sym", ("unparsed",))))]
        if it in ("contains", "find") and len(D) == 2 and isinstance(D[0], tuple) and D[0][:1] == ("sl",) and is_lin(D[1]) and num(D[1]) == 46:
            if it == "contains":
                out = []
                for x in (True, False):
                    if st.conds.get(("dot",)) in (None, "gone", x):
                        a = st.copy()
                        a.conds[("dot",)] = x
                        out.append((a, x))
                return out
        if wip and it == "put" and isinstance(D[1], bool):
            self.literal(st, "true" if D[1] else "false", bi)
        if wip and it == "pop_some_push_none":
            self.literal(st, "null", bi)
        if wip and it == "try_put_f64":
            x = D[1]
            self.texts[1] += 1
            z = x[1] if isinstance(x, tuple) and x[:1] == ("sym",) else x
            if isinstance(z, tuple) and z[:1] == ("number",):
                self.number(st, z[2], bi)
                if z[1] not in ("f64", None):
                    self.say("number:other", "a number is taken for a %s before it is stored" % z[1], st, bi)
            if st.conds.get(("dot",)) is False:
                self.say("number:f64", "a number without a fraction goes through f64, which can't hold every integer", st, bi)
        if wip and it == "parse":
            if isinstance(D[1], tuple) and D[1][:1] == ("sl",) and D[1][1] in self.inputs and D[1][3] != st.conds.get(("closed",)):
                self.texts[0] += 1
            if isinstance(D[1], tuple) and D[1][:1] == ("sl",):
                self.number(st, D[1], bi)
        if wip and it == "put" and is_lin(D[1]) is False and isinstance(D[1], tuple) and any(y[:1] == ("number",) for y in parts(D[1])):
            self.texts[1] += 1
        if wip and it in ("field_named", "field"):
            self.field(st, D[1], bi)
        if d in self.contract:
            if isinstance(st.conds.get(("match",)), tuple):
                self.say("key:skipped", "the value of a key that names a field is skipped", st, bi)
        return Read.call(self, st, bi, f, args, t, dt)

    def _calls(self, st, bi, f, args, t, dt):
        out = Read._calls(self, st, bi, f, args, t, dt)
        if not isinstance(f, dict) or not args:
            return out
        it = item_of(f)
        new = {}
        if "Wip" in fname(f):
            if it == "pop_some_push_none" or it == "put" and isinstance(self.deref(st, args[1]), bool):
                l = st.conds.get(("lit",))
                new[("ends",)] = add(l[1], K(len(l[0]))) if isinstance(l, tuple) else None
            if it in ("field_named", "field"):
                new[("match",)] = None
        if vt.fdef(f) in self.contract:
            new[("ends",)] = None
        if new:
            res = []
            for s, v in out:
                s = s.copy()
                s.conds.update(new)
                res.append((s, v))
            return res
        return out

    def named(self, st, D):
        """the field whose name or other name is compared with what was read, or None"""
        for x, y in (D, D[::-1]):
            if isinstance(x, tuple) and x[:1] == ("sl",) and isinstance(x[1], tuple) and x[1][:1] == ("f",) and (not isinstance(y, tuple) or not any(z[:1] == ("f",) and z[-1] == "name" for z in parts(y))):
                n = x[1]
                if n[-1] == "name" and isinstance(n[1], tuple) and n[1][:1] == ("[]",):
                    return ("name", n[1])
                if n[1][:1] == ("as",) and n[1][2] == "Rename":
                    for z in parts(n):
                        if z[:1] == ("f",) and z[-1] == "attributes" and isinstance(z[1], tuple) and z[1][:1] == ("[]",):
                            return ("rename", z[1])
        return None

    def field(self, st, v, bi):
        self.count_("fields chosen")
        x = v[1] if isinstance(v, tuple) and v[:1] in (("sl",), ("sym",)) and len(v) > 1 else v
        if DBG:
            print("FIELD", str(x)[:300], st.conds.get(("match",)))
        m = st.conds.get(("match",))
        if isinstance(x, tuple) and x[:1] == ("f",) and x[-1] == "name":
            if m == "gone" and num(x[1][2]) is None:
                self.count_("fields undecided")
            elif m is None or m == "gone" or m[1] != x[1]:
                self.say("key:field", "the field that a value is put in isn't one whose name or rename is the key", st, bi)

    def literal(self, st, want, bi):
        self.count_("words stored")
        l = st.conds.get(("lit",))
        if l == "gone":
            return
        if l is None or l[0] != want:
            self.say("word:" + want, "what `%s` stands for is stored where the input doesn't say so" % want, st, bi)

    def text_(self, st, v, bi):
        if v[:1] == ("sl",) and v[1] in self.inputs:
            b = [x for k, x in st.conds.items() if isinstance(k, tuple) and k[0] == "from" and k[2] == "str"]
            c = st.conds.get(("closed",))
            if not is_lin(c):
                return
            self.count_("texts")
            if v[3] != c or b and not any(x == v[2] for x in b):
                self.say("text:whole", "a text isn't what is between its quotes", st, bi)
            if st.conds.get(("empty",)) is False:
                self.say("text:raw", "a text with escapes in it is taken as it was written", st, bi)
        elif v[:1] in (("pieces",), ("sym",)):
            self.count_("texts")
            if st.conds.get(("empty",)) is True and is_lin(st.conds.get(("closed",))):
                self.say("text:none", "a text without escapes is taken for an empty one", st, bi)

    def number(self, st, v, bi):
        if v[:1] != ("sl",) or v[1] not in self.inputs:
            return False
        e = st.conds.get(("ends",))
        b = [x for k, x in st.conds.items() if isinstance(k, tuple) and k[0] == "from" and k[2] == "num"]
        if not b or not is_lin(e):
            return False
        if v[3] == st.conds.get(("closed",)):
            return False
        self.count_("numbers")
        if v[3] != e or not any(x == v[2] for x in b):
            self.say("number:whole", "a number isn't made from all of its digits", st, bi)
        return True


def c28(fx, r):
    r.rule("on every path of the JSON reader, from any state its loops allow: true, false and null are stored only where the input was compared with these words; a number's text reaches from its first character to the first that can't be part of one, "
           "and goes through f64 only with a fraction; each turn over a text's characters takes over exactly the one it read, or the one the escape it read stands for, and goes on right after it; the field chosen is one whose name or rename was found equal to the key")
    p = program(fx)
    fs, calls = callgraph(p, MODULE, CR)
    rec = {i for i in fs if reaches(calls, i, i) and "{closure" not in i}
    called = {c for i in fs for c in calls[i] if c != i}
    roots = [f for i, f in sorted(fs.items()) if "{closure" not in i and "{const" not in i and (i in rec or i not in called)]
    total = [0, 0]
    for f in roots:
        if "error" in f.id:
            continue
        g = flow.Graph(p, f, lambda c, x: policy(c, x) and c.id not in rec, cap=40000)
        it = Say(g, fx, rec)
        it.allocated = set()
        name = f.id.replace(CR + "::", "")
        try:
            outs = it.run()
        except Undecided as e:
            r.notes.append("undecided: %s: %s" % (name, e))
            continue
        r.count("functions")
        seen = {}
        for h, (st, bi) in it.unasked.items():
            if h in it.lazy:
                seen.setdefault(("text:before", "what comes before the first escape of a text is lost"), bi)
        for k, v, st, bi in outs:
            if k == "say":
                seen.setdefault(v, bi)
            elif k == "ret" and okret(v) != 0 and f.id in rec and it.cells:
                e, l = st.conds.get(("ends",)), st.conds.get(("lit",))
                if e is None and isinstance(l, tuple) and l[0] in LITS:
                    e = add(l[1], K(len(l[0])))
                if is_lin(e):
                    r.count("ends of values")
                    if all(st.mem.get(c) != e and num(add(st.mem[c], e, -1)) is not None for c in it.cells if is_lin(st.mem.get(c))):
                        seen.setdefault(("skip:end", "a value is left at another place than its end"), bi)
                    else:
                        r.ok()
            else:
                r.ok()
        for (k, what), bi in seen.items():
            r.bad("%s:%s" % (name, k), "%s: %s" % (name, what), nearest(g, bi))
        for k, n in it.n.items():
            r.count(k, n)
        total[0] += it.texts[0]
        total[1] += it.texts[1]
    if total[1] and not total[0]:
        r.bad("number:integers", "every number goes through f64, which can't hold every integer", "facet-json/src/deserialize.rs")
    r.floor("words stored", 3)
    r.floor("fields chosen", 2)
