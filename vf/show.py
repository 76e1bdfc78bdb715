"""Compact rendering of expression trees, for reports and development."""
from .vt import fname


def show(e, d=9):
    if d <= 0:
        return "…"
    k = e[0]
    S = lambda x: show(x, d - 1)
    if k == "p":
        return "p%d" % e[1]
    if k == "k":
        c = e[1]
        if "fn" in c:
            return fname(c["fn"]).split("::")[-1]
        for n in ("bits", "str", "uneval"):
            if n in c:
                return str(c[n])[-40:]
        return "const"
    if k == "call":
        f = fname(e[1]).split("::")[-1] if isinstance(e[1], dict) else "(%s)" % S(e[1])
        return "%s(%s)@%s" % (f, ", ".join(S(x) for x in e[2]), e[3])
    if k == "ref":
        return "&" + S(e[1])
    if k == "*":
        return "*" + S(e[1])
    if k == ".":
        return "%s.%s%s" % (S(e[1]), (e[4] + "!") if e[4] else "", e[3] if e[3] is not None else e[2])
    if k == "agg":
        n = str(e[1][1]).split("::")[-1] if len(e[1]) > 1 else e[1][0]
        if e[1][0] == "adt" and e[1][2] not in (None, n):
            n += "::" + str(e[1][2])
        return "%s{%s}" % (n, ", ".join(S(x) for x in e[2]))
    if k == "cast":
        return S(e[2])
    if k == "bin":
        return "(%s %s %s)" % (S(e[2]), e[1], S(e[3]))
    if k == "un":
        return "%s(%s)" % (e[1], S(e[2]))
    if k == "phi":
        return "φ[%s]" % " | ".join(S(x) for x in e[1])
    if k == "discr":
        return "discr(%s)" % S(e[1])
    if k == "item":
        return "item%s" % (e[1:4],)
    if k == "idx":
        return "%s[%s]" % (S(e[1]), S(e[2]))
    return str(e[:2])
