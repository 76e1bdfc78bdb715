"""Whole-function flow graphs over the compiler's MIR: resolved local callees, Option/Result
combinators and the closures passed to them are inlined, so that what is decided does not
depend on how the code is cut into functions."""
import sys

sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ("key", "id", "name", "crate", "body", "promoted", "item", "raw", "_g")

    def __init__(self, key, id_, name, crate, body, promoted, item, raw):
        self.key, self.id, self.name, self.crate = key, id_, name, crate
        self.body, self.promoted, self.item, self.raw = body, promoted or [], item, raw


class PolyProgram:
    """Functions of the facet crates as written (generic bodies), joined across crates by path."""

    def __init__(self, fx, crates, models=False):
        self.fns = {}
        self.std = {}
        self.models = {}
        if models:
            c = fx.crate("facet_vf_models")
            for f in c.fns:
                x = Fn(f["id"], f["id"], f["name"], c, f["body"], f.get("promoted"), f.get("item"), f)
                self.models[f["id"].split("::")[-1]] = x
        self.crates = [fx.crate(c) for c in crates]
        self.many = {a["id"].split("::")[-1] for c in self.crates for a in c.d["adts"] if len(a.get("variants") or ()) > 2}
        for c in self.crates:
            for f in c.fns:
                if f.get("body"):
                    self.fns[f["id"]] = Fn(f["id"], f["id"], f["name"], c, f["body"], f.get("promoted"), f.get("item"), f)
            for f in c.d.get("std", []):
                self.std.setdefault((c.name, f["id"]), Fn(f["id"], f["id"], f["name"], c, f["body"], f.get("promoted"), f.get("item"), f))

    def resolve(self, fn, crate):
        """call-site function value -> Fn or None"""
        d = fn["def"]
        if self.models and (fn.get("trait") or "").endswith("::Iterator") and fn.get("item") in self.models:
            return self.models[fn["item"]]
        r = fn.get("res")
        if r:
            if r["kind"] != "item":
                return None
            d = r["def"]
        elif fn.get("trait"):
            if d not in self.fns:  # provided methods resolve to themselves
                return None
            return None
        return self.fns.get(d) or self.std.get((crate.name, d))

    def by_id(self, d, crate):
        return self.fns.get(d) or self.std.get((crate.name, d))


class MonoProgram:
    """Instances reachable from the corpus, fully resolved."""

    def __init__(self, fx):
        self.crate = fx.crate("facet_witness")
        self.insts = self.crate.d["insts"]
        self._f = {}

    def fn(self, k):
        if k not in self._f:
            i = self.insts[k]
            self._f[k] = Fn(k, i["def"], i["name"], self.crate, i["body"], i.get("promoted"), i["def"].split("::")[-1], i) if i.get("body") else None
        return self._f[k]

    def resolve(self, fn, crate):
        k = fn.get("inst")
        return self.fn(k) if k is not None else None

    def by_id(self, d, crate):
        return None


FNTRAITS = ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn")


class TooBig(Exception):
    pass


class Graph:
    def __init__(self, prog, fn, policy=None, cap=60000, depth=40):
        """policy(callee Fn, call fn value) -> True to inline"""
        self.prog = prog
        self.fn = fn
        self.policy = policy or (lambda callee, c: True)
        self.locals = []   # (crate, type index)
        self.blocks = []   # {"s","t","fn","cr"}
        self.defs = {}     # local -> [(bi, si or "t", rvalue-ish)]
        self.n = 0
        self.cap = cap
        self.maxdepth = depth
        self.inlined = []
        self.skipped = []
        self.closures_bound = set()
        self._preds = None
        self._live = {}
        self._ec = {}
        self.frames = [{}]  # per inlined body: its type parameters in the root function's terms
        self.entry, self.argl, self.rets, todo = self._add(fn, (fn.key,), None, 0)
        while todo:
            todo += reversed(self._call(todo.pop()))

    # -- building
    def _add(self, fn, stack, ret, fr):
        """append fn's blocks; ret=(dest place, target block) or None for the root"""
        off = len(self.locals)
        for t in fn.body["locals"]:
            self.locals.append((fn.crate, t))
        idx = {}
        for k, b in enumerate(fn.body["blocks"]):
            if not b.get("cl"):
                idx[k] = len(self.blocks)
                self.blocks.append(None)
        rets = []
        calls = []
        for k, b in enumerate(fn.body["blocks"]):
            if b.get("cl"):
                continue
            bi = idx[k]
            self._fr = fr
            ss = [self._stmt(s, off, fn) for s in b["s"]]
            t = self._term(b["t"], off, idx, fn)
            self.n += len(ss) + 1
            if self.n > self.cap:
                raise TooBig(fn.id)
            if t[0] == "ret":
                rets.append(bi)
                if ret is not None:
                    ss.append(["=", ret[0], ["use", ["m", [off, []]]], 0])
                    t = ["goto", ret[1]] if ret[1] is not None else ["unreachable"]
            self.blocks[bi] = {"s": ss, "t": t, "fn": fn, "off": off, "stack": stack, "fr": fr}
            for si, s in enumerate(ss):
                self._def(bi, si, s)
            if t[0] == "call":
                d = t[3]
                if d[1] == []:
                    self.defs.setdefault(d[0], []).append((bi, "t", ["call", t]))
                calls.append(bi)
        return idx[0], [off + 1 + i for i in range(fn.body["argc"])], rets, calls

    def _def(self, bi, si, s):
        if s[0] == "=" and s[1][1] == []:
            self.defs.setdefault(s[1][0], []).append((bi, si, s[2]))

    def _call(self, bi):
        b = self.blocks[bi]
        t, stack = b["t"], b["stack"]
        if len(stack) > self.maxdepth:
            return []
        target, conv = self.callee_of(bi)
        if target is None or target.body is None:
            return []
        if target.key in stack:
            self.skipped.append((bi, target))
            return []
        if not self.policy(target, self.fnval(t)):
            return []
        args, dest, cont = t[2], t[3], t[4]
        # the call's own definition is replaced by the callee's return
        if dest[1] == [] and dest[0] in self.defs:
            self.defs[dest[0]] = [d for d in self.defs[dest[0]] if not (d[0] == bi and d[1] == "t")]
        self.inlined.append(target)
        e, argl, _, calls = self._add(target, stack + (target.key,), (dest, cont), self._frame(target, t, b, conv))
        if conv:  # (callable, tuple of arguments)
            isclosure, item = conv
            tup = args[1] if len(args) > 1 else None
            n = target.body["argc"] - (1 if isclosure else 0)
            vals = []
            if isclosure:
                a0 = args[0]
                pt = target.crate.types[target.body["locals"][1]]
                at = self.optype(a0, b)
                if pt["k"] == "ref" and at is not None and at["k"] != "ref" and a0[0] in ("c", "m"):
                    vals.append(["ref", True, a0[1]])
                else:
                    vals.append(["use", a0])
            for k in range(n):
                if tup is not None and tup[0] in ("c", "m"):
                    vals.append(["use", ["m", [tup[1][0], tup[1][1] + [["f", k, str(k), "()", None, None]]]]])
                else:
                    vals.append(["use", ["rt"]])
        else:
            vals = [["use", a] for a in args]
        for l, v in zip(argl, vals):
            b["s"].append(["=", [l, []], v, t[6]])
            self._def(bi, len(b["s"]) - 1, b["s"][-1])
        b["t"] = ["goto", e]
        b["call"] = t
        return calls

    def _frame(self, target, t, b, conv):
        gen = target.raw.get("gen")
        if not gen:
            return 0
        fv, cr, fr = self.fnval(t), b["fn"].crate, b["fr"]
        if conv or fv is None:
            o = self.trace_callable(t[2][0] if conv else t[1])
            if o and o[0] == "closure":
                return o[3]
            if not o or o[0] != "fn":
                return 0
            fv, cr, fr = o[1], o[2] or cr, o[3]
        args = fv["args"]
        r = fv.get("res")
        if r and r.get("def") == target.id:
            args = r.get("args", args)
        if len(args) != len(gen):
            return 0
        self.frames.append({n: self.tyname(cr, a, fr) for n, a in zip(gen, args)})
        return len(self.frames) - 1

    def tyname(self, cr, t, fr=0):
        """type index -> name with the frame's type parameters replaced by what the root gives them"""
        if not isinstance(t, int):
            return str(t)
        ty = cr.types[t]
        sub = self.frames[fr]
        if not sub:
            return ty["s"]
        if ty["k"] == "param":
            return sub.get(ty["s"], ty["s"])
        s = ty["s"]
        if not ty.get("args"):
            return s
        import re
        for n, v in sub.items():
            if n != v:
                s = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(n), lambda m: v, s)
        return s

    def optype(self, o, b):
        if o[0] in ("c", "m") and o[1][1] == []:
            cr, t = self.locals[o[1][0]]
            return cr.types[t]
        return None

    def fnval(self, t):
        f = t[1]
        return f[1].get("fn") if f[0] == "k" else None

    def callee_of(self, bi):
        """(Fn or None, None | (is closure, trait item)) of the call ending block bi"""
        b = self.blocks[bi]
        t = b["t"]
        fv = self.fnval(t)
        cr = b["fn"].crate
        if fv is None:
            o = self.trace_callable(t[1])
            if o and o[0] == "fn":
                return self.prog.resolve(o[1], o[2]), None
            return None, None
        if fv.get("trait") in FNTRAITS:
            o = self.trace_callable(t[2][0])
            if o and o[0] == "closure":
                c = self.prog.by_id(o[1], o[2])
                if c is not None:
                    return c, (True, fv["item"])
            if o and o[0] == "fn":
                c = self.prog.resolve(o[1], o[2])
                if c is not None:
                    return c, (False, fv["item"])
            c = self.prog.resolve(fv, cr)
            if c is not None:
                if "{closure" in c.id.split("::")[-1]:
                    return c, (True, fv["item"])
                if c.id.startswith("core::ops::function"):
                    return c, None
                return c, (False, fv["item"])
            return None, None
        return self.prog.resolve(fv, cr), None

    def trace_callable(self, o, n=0):
        if n > 30:
            return None
        if o[0] == "k":
            c = o[1]
            if "fn" in c:
                return ("fn", c["fn"], c.get("_cr"), c.get("_fr", 0))
            v = c.get("val")
            if isinstance(v, dict) and "fnptr" in v:
                return ("fnptr", v)
            return None
        if o[0] not in ("c", "m"):
            return None
        l, pr = o[1]
        ds = self.defs.get(l, [])
        if len(ds) != 1:
            return None
        rv = ds[0][2]
        pr = [e for e in pr if e != "*"]
        if pr:
            # a captured or aggregated callable
            if rv[0] == "agg" and len(pr) >= 1 and isinstance(pr[0], list) and pr[0][0] == "f":
                if pr[0][1] < len(rv[2]) and len(pr) == 1:
                    return self.trace_callable(rv[2][pr[0][1]], n + 1)
                return None
            if rv[0] in ("use",) and rv[1][0] in ("c", "m"):
                return self.trace_callable(["c", [rv[1][1][0], rv[1][1][1] + pr]], n + 1)
            if rv[0] in ("ref", "raw"):
                return self.trace_callable(["c", [rv[2][0], rv[2][1] + pr]], n + 1)
            return None
        if rv[0] == "use":
            return self.trace_callable(rv[1], n + 1)
        if rv[0] in ("ref", "raw"):
            return self.trace_callable(["c", [rv[2][0], rv[2][1]]], n + 1)
        if rv[0] == "cast":
            return self.trace_callable(rv[2], n + 1)
        if rv[0] == "agg" and rv[1][0] == "closure":
            b = self.blocks[ds[0][0]]
            return ("closure", rv[1][1], b["fn"].crate, b["fr"])
        return None

    # -- renumbering
    def _pl(self, p, off):
        return [p[0] + off, [["i", e[1] + off] if isinstance(e, list) and e[0] == "i" else e for e in p[1]]]

    def _op(self, o, off, fn):
        if o[0] in ("c", "m"):
            return [o[0], self._pl(o[1], off)]
        if o[0] == "k":
            c = dict(o[1])
            c["_cr"] = fn.crate
            c["_fr"] = self._fr
            if "promoted" in c:
                c["_own"] = fn
            return ["k", c]
        return o

    def _rv(self, r, off, fn):
        k = r[0]
        if k == "use":
            return ["use", self._op(r[1], off, fn)]
        if k == "repeat":
            return ["repeat", self._op(r[1], off, fn), r[2]]
        if k in ("ref", "raw"):
            return [k, r[1], self._pl(r[2], off)]
        if k == "cast":
            return ["cast", r[1], self._op(r[2], off, fn), r[3], r[4]]
        if k == "bin":
            return ["bin", r[1], self._op(r[2], off, fn), self._op(r[3], off, fn), r[4]]
        if k == "un":
            return ["un", r[1], self._op(r[2], off, fn)]
        if k == "discr":
            return ["discr", self._pl(r[1], off)]
        if k == "agg":
            return ["agg", r[1], [self._op(o, off, fn) for o in r[2]]]
        return r

    def _stmt(self, s, off, fn):
        k = s[0]
        if k == "=":
            return ["=", self._pl(s[1], off), self._rv(s[2], off, fn), s[3]]
        if k == "setd":
            return ["setd", self._pl(s[1], off), s[2]]
        if k == "assume":
            return ["assume", self._op(s[1], off, fn)]
        if k == "copy":
            return ["copy"] + [self._op(o, off, fn) for o in s[1:4]]
        if k == "dead":
            return ["dead", s[1] + off]
        return s

    def _term(self, t, off, idx, fn):
        k = t[0]
        B = lambda x: idx.get(x) if x is not None else None
        if k == "goto":
            return ["goto", B(t[1])]
        if k == "switch":
            return ["switch", self._op(t[1], off, fn), [[v, B(x)] for v, x in t[2]], B(t[3]), t[4], t[5]]
        if k == "drop":
            return ["drop", self._pl(t[1], off), B(t[2]), None, t[4], t[5]]
        if k == "call":
            return ["call", self._op(t[1], off, fn), [self._op(a, off, fn) for a in t[2]], self._pl(t[3], off), B(t[4]), None, t[6], t[7]]
        if k == "assert":
            m = t[3]
            m = [m[0]] + [self._op(x, off, fn) if isinstance(x, list) else x for x in m[1:]]
            return ["assert", self._op(t[1], off, fn), t[2], m, B(t[4]), None, t[6]]
        return list(t)

    # -- shape of the graph
    def succs(self, bi):
        t = self.blocks[bi]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def preds(self):
        if self._preds is None:
            p = {i: [] for i in range(len(self.blocks))}
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    p[s].append(i)
            self._preds = p
        return self._preds

    def reachable(self):
        seen, todo = set(), [self.entry]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo += self.succs(b)
        return seen

    def live(self, ret=0):
        """per block, the locals (as a bit set) whose constant value can still matter when control enters it"""
        if ret in self._live:
            return self._live[ret]
        use, kill = [], []
        for b in self.blocks:
            u = k = 0
            t = b["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m") and _held(t[1][1][1]):
                u |= 1 << t[1][1][0]
            if t[0] == "ret":
                u |= 1 << ret
            if t[0] == "call" and t[3][1] == []:
                k |= 1 << t[3][0]
                u &= ~(1 << t[3][0])
            for s in reversed(b["s"]):
                if s[0] == "dead":
                    k |= 1 << s[1]
                    continue
                if s[0] != "=":
                    continue
                if s[1][1] == []:
                    k |= 1 << s[1][0]
                    u &= ~(1 << s[1][0])
                rv = s[2]
                ops = {"use": rv[1:2], "un": rv[2:3], "bin": rv[2:4]}.get(rv[0], ())
                if rv[0] == "agg" and rv[1][0] == "adt" and len(rv[2]) == 1:
                    ops = rv[2]
                for o in ops:
                    if o[0] in ("c", "m") and _held(o[1][1]):
                        u |= 1 << o[1][0]
                if rv[0] == "discr" and _held(rv[1][1]):
                    u |= 1 << rv[1][0]
            use.append(u)
            kill.append(k)
        live = [0] * len(self.blocks)
        preds = self.preds()
        todo = list(range(len(self.blocks)))
        on = [True] * len(self.blocks)
        while todo:
            b = todo.pop()
            on[b] = False
            o = 0
            for s in self.succs(b):
                if s is not None:
                    o |= live[s]
            v = use[b] | (o & ~kill[b])
            if v != live[b]:
                live[b] = v
                for q in preds[b]:
                    if not on[q]:
                        on[q] = True
                        todo.append(q)
        self._live[ret] = live
        return live

    def avoiding(self, blocks, start=None, goals=None):
        """is a goal (default: a return) reachable from start without entering `blocks`?"""
        goals = set(self.rets if goals is None else goals)
        seen, todo = set(), [self.entry if start is None else start]
        while todo:
            b = todo.pop()
            if b in seen or b in blocks:
                continue
            seen.add(b)
            if b in goals:
                return True
            todo += self.succs(b)
        return False

    def outcomes(self, start, env, ret=0, stop=()):
        """constants the function can return when control stands at block `start` with the given
        constant locals; None stands for an unknown value"""
        return {r for _, r in self.paths({}, start, env, ret, stop)}

    def paths(self, marks, start=None, env=None, ret=0, stop=(), limit=20000, hook=None, visited=None, auto=None):
        """Conditional constant propagation over the graph, counting marked blocks.
        marks: {block: label or list of labels}.  Returns {(((label, 0|1|2=more),...), returned constant | ('v', variant) | None)}.
        With auto = (state, {block: [event]}, step), a typestate is followed instead of counts: step(state, event, block) -> state."""
        marks = {b: [l] if isinstance(l, str) else l for b, l in marks.items()}
        labels = sorted({x for l in marks.values() for x in l})
        out = set()
        seen = set()
        live = self.live(ret)
        todo = [(self.entry if start is None else start, dict(env or {}), auto[0] if auto else tuple(0 for _ in labels))]
        n = 0
        while todo:
            bi, env, cnt = todo.pop()
            lv = live[bi]
            env = {l: v for l, v in env.items() if lv >> l & 1}
            k = (bi, frozenset(env.items()), cnt)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if visited is not None:
                visited.add(bi)
            if n > limit:
                return {(None, None)}
            if auto:
                for x in auto[1].get(bi, ()):
                    cnt = auto[2](cnt, x, bi)
            for x in marks.get(bi, ()):
                i = labels.index(x)
                cnt = cnt[:i] + (min(2, cnt[i] + 1),) + cnt[i + 1:]
            b = self.blocks[bi]
            for s in b["s"]:
                if s[0] == "dead":
                    env.pop(s[1], None)
                    continue
                if s[0] != "=":
                    continue
                l, pr = s[1]
                v = (hook(bi, s[2]) if hook else None) if pr == [] else None
                if v is None:
                    v = self._cprop(s[2], env) if pr == [] else None
                if v is None:
                    env.pop(l, None)
                else:
                    env[l] = v
            t = b["t"]
            if t[0] == "ret":
                out.add((cnt if auto else tuple(zip(labels, cnt)), env.get(ret)))
                continue
            if t[0] == "switch":
                v = self._cop(t[1], env)
                if isinstance(v, int):
                    nx = [(x, None) for w, x in t[2] if int(w) == v] or [(t[3], None)]
                else:
                    nx = [(x, int(w)) for w, x in t[2]] + [(t[3], None)]
                base = t[1][1][0] if t[1][0] in ("c", "m") and t[1][1][1] == [] else None
                for x, w in nx:
                    if x is None:
                        continue
                    e2 = dict(env)
                    if w is not None and base is not None:
                        e2[base] = w
                        d = self._discr_of(b, base)
                        if d is not None:
                            e2[d] = ("d", w)
                    todo.append((x, e2, cnt))
                continue
            if t[0] == "call":
                env.pop(t[3][0], None)
                v = hook(bi, ["call", t]) if hook and t[3][1] == [] else None
                if v is not None:
                    env[t[3][0]] = v
            todo += [(x, dict(env), cnt) for x in self.succs(bi) if x is not None and x not in stop]
        return out

    def _discr_of(self, b, l):
        """the local whose discriminant local l holds, when read in this block"""
        for s in reversed(b["s"]):
            if s[0] == "=" and s[1] == [l, []]:
                if s[2][0] == "discr" and s[2][1][1] == []:
                    return s[2][1][0]
                return None
        return None

    def _cop(self, o, env):
        if o[0] == "k":
            if "bits" not in o[1]:
                return None
            v, cr = int(o[1]["bits"]), o[1].get("_cr")
            if v == 0 and cr is not None and isinstance(o[1].get("ty"), int):
                # the missing reference or box is the null one
                t = cr.types[o[1]["ty"]]
                if t.get("def") == "core::option::Option" and t.get("args") and isinstance(t["args"][0], int) and cr.types[t["args"][0]].get("k") == "ref":
                    return ("v", "None", 0)
            return v
        if o[0] in ("c", "m"):
            if o[1][1] == []:
                return env.get(o[1][0])
            return self._payload(env.get(o[1][0]), o[1][1])
        return None

    def _payload(self, v, pr):
        """what a variant holds, when that is one known value"""
        while pr:
            if not (len(pr) >= 2 and isinstance(v, tuple) and v[0] == "v" and len(v) > 3 and pr[0][0] == "d" and pr[0][1] == v[1] and pr[1][0] == "f"):
                return None
            v, pr = v[3], pr[2:]
        return v

    def _cprop(self, rv, env):
        k = rv[0]
        if k == "use":
            return self._cop(rv[1], env)
        if k == "agg" and rv[1][0] == "adt" and len(rv[1]) > 5:
            x = self._cop(rv[2][0], env) if len(rv[2]) == 1 else None
            return ("v", rv[1][2], rv[1][5], x) if x is not None and len(rv[1]) > 5 else ("v", rv[1][2], rv[1][5])
        if k == "discr":
            v = env.get(rv[1][0])
            if rv[1][1]:
                v = self._payload(v, rv[1][1])
            if isinstance(v, tuple) and v[0] == "v":
                return v[2]
            if isinstance(v, tuple) and v[0] == "d":
                return v[1]
            return None
        if k == "un" and rv[1] == "Not":
            v = self._cop(rv[2], env)
            return 1 - v if v in (0, 1) else None
        if k == "bin":
            a, b = self._cop(rv[2], env), self._cop(rv[3], env)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            return {"Eq": int(a == b), "Ne": int(a != b), "BitAnd": a & b, "BitOr": a | b}.get(rv[1])
        return None

    def ts(self, l):
        cr, t = self.locals[l]
        return cr.types[t]["s"] if isinstance(t, int) else str(t)

    def where(self, bi, line=None):
        b = self.blocks[bi]
        sp = str(b["fn"].raw.get("span", ""))
        t = b["t"]
        ln = line
        if ln is None:
            ln = {"call": 6, "switch": 5, "drop": 5, "assert": 6}.get(t[0])
            ln = t[ln] if ln is not None else None
        f = sp.split(":")[0]
        return "%s:%s" % (f, ln if ln else sp.split(":")[1] if ":" in sp else "?")

    # -- expressions
    def expr(self, o, n=0, seen=()):
        """operand -> tree:
        ('p',i) parameter, ('k',const), ('call',fnval,[args],bi), ('ref',e), ('*',e), ('.',e,idx,name,variant),
        ('bin',op,a,b), ('un',op,a), ('cast',kind,e,ty), ('agg',kind,[e]), ('discr',e), ('phi',[e]), ('?',)"""
        if o[0] == "k":
            return ("k", _K(o[1]))
        if o[0] in ("c", "m"):
            return self.place_expr(o[1], n, seen)
        return ("?",)

    def place_expr(self, p, n=0, seen=()):
        e = self.local_expr(p[0], n, seen)
        for pr in p[1]:
            if pr == "*":
                e = self._deref(e)
            elif isinstance(pr, list) and pr[0] == "f":
                e = self._field(e, pr[1], pr[2], pr[4])
            elif isinstance(pr, list) and pr[0] == "d":
                e = self._down(e, pr[1])
            elif isinstance(pr, list) and pr[0] == "i":
                e = ("idx", e, self.local_expr(pr[1], n + 1, seen))
            elif isinstance(pr, list) and pr[0] == "ci":
                e = ("ci", e, pr[1], pr[2])
            elif isinstance(pr, list) and pr[0] == "sub":
                e = ("sub", e, pr[1], pr[2], pr[3])
            else:
                e = ("?",)
        return e

    def _deref(self, e):
        if e[0] == "ref":
            return e[1]
        if e[0] == "phi":
            return phi([self._deref(x) for x in e[1]])
        return ("*", e)

    def _down(self, e, variant):
        if e[0] == "agg" and e[1][0] == "adt":
            return e if e[1][2] == variant else ("dead",)
        if e[0] == "phi":
            return phi([self._down(x, variant) for x in e[1]])
        return e

    def _field(self, e, i, name, variant):
        if e[0] == "agg":
            k = e[1]
            if k[0] == "adt" and variant is not None and k[2] != variant:
                return ("dead",)
            if i < len(e[2]):
                return e[2][i]
            return ("?",)
        if e[0] == "phi":
            return phi([self._field(x, i, name, variant) for x in e[1]])
        if e[0] == "dead":
            return e
        return (".", e, i, name, variant)

    def local_expr(self, l, n=0, seen=()):
        key = l
        c = self._ec
        if key in c:
            return c[key]
        if l in self.argl:
            ds = self.defs.get(l, [])
            if not ds:
                return ("p", self.argl.index(l))
        if n > 200 or l in seen:
            return ("rec", l)
        ds = self.defs.get(l, [])
        es = [self._rv_expr(d, n + 1, seen + (l,)) for d in ds]
        if l in self.argl:
            es.append(("p", self.argl.index(l)))
        r = phi(es) if es else ("uninit", l)
        if not _hasrec(r, seen + (l,)):
            c[key] = r
        return r

    def _rv_expr(self, d, n, seen):
        bi, si, rv = d
        k = rv[0]
        if k == "use":
            return self.expr(rv[1], n, seen)
        if k in ("ref", "raw"):
            p = rv[2]
            if p[1] and p[1][-1] == "*" :
                # reborrow
                return self.place_expr([p[0], p[1][:-1]], n, seen)
            return ("ref", self.place_expr(p, n, seen))
        if k == "cast":
            return ("cast", rv[1], self.expr(rv[2], n, seen), (self.blocks[bi]["fn"].crate, rv[3]), rv[4])
        if k == "bin":
            return ("bin", rv[1], self.expr(rv[2], n, seen), self.expr(rv[3], n, seen))
        if k == "un":
            return ("un", rv[1], self.expr(rv[2], n, seen))
        if k == "discr":
            return ("discr", self.place_expr(rv[1], n, seen))
        if k == "agg":
            return ("agg", tuple(x if not isinstance(x, list) else tuple(map(str, x)) for x in rv[1]), [self.expr(o, n, seen) for o in rv[2]])
        if k == "call":
            t = rv[1]
            return ("call", _K(self.fnval(t)) if self.fnval(t) else self.expr(t[1], n, seen), [self.expr(a, n, seen) for a in t[2]], bi)
        if k == "repeat":
            return ("repeat", self.expr(rv[1], n, seen), rv[2])
        return ("?",)


class _K(dict):
    """hashable-by-identity constant"""
    def __hash__(self):
        return id(self)


def _held(pr):
    """does the place lie in the payloads of variants only?"""
    return all(isinstance(x, list) and x[0] == ("d", "f")[i % 2] for i, x in enumerate(pr))


def _hasrec(e, seen):
    st = [e]
    done = set()
    while st:
        x = st.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        if isinstance(x, tuple):
            if x and x[0] == "rec" and x[1] in seen:
                return True
            st.extend(x[1:])
        elif isinstance(x, list):
            st.extend(x)
    return False


def phi(es):
    out = []
    for e in es:
        if e[0] == "dead":
            continue
        if e[0] == "phi":
            for x in e[1]:
                if x not in out:
                    out.append(x)
        elif e not in out:
            out.append(e)
    if not out:
        return ("dead",)
    if len(out) == 1:
        return out[0]
    return ("phi", out)


def walk(e):
    """every sub-expression"""
    st = [e]
    done = set()
    while st:
        x = st.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        if isinstance(x, list):
            st.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        yield x
        k = x[0]
        if k == "agg":
            st.extend(x[2])
        elif k == "cast":
            st.append(x[2])
        elif k == "call":
            st.extend(x[2])
            if not isinstance(x[1], dict):
                st.append(x[1])
        elif k in ("k", "p", "rec", "uninit"):
            pass
        else:
            st.extend(y for y in x[1:] if isinstance(y, (tuple, list)))
