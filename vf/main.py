import importlib, os, sys, traceback
from . import facts, report

# property -> (module, function[, "libs" when the corpus is not needed])
CHECKS = {
    "C01": ("c_shapes", "c01"),
    "C02": ("c_shapes", "c02"),
    "C03": ("c_shapes", "c03"),
    "C04": ("c_shapes", "c04"),
    "C05": ("c_shapes", "c05"),
    "C06": ("c_vtab", "c06"),
    "C07": ("c_vtab", "c07"),
    "C08": ("c_own", "c08"),
    "C09": ("c_acc", "c09"),
    "C10": ("c_peek", "c10", "libs"),
    "C11": ("c_peek", "c11", "libs"),
    "C12": ("c_peek", "c12", "libs"),
    "C13": ("c_peek", "c13", "libs"),
    "C14": ("c_peek", "c14", "libs"),
    "C15": ("c_peek", "c15", "libs"),
    "C16": ("c_wip", "c16", "libs"),
    "C17": ("c_make", "c17", "libs"),
    "C19": ("c_own2", "c19", "libs"),
    "C20": ("c_make", "c20", "libs"),
    "C18": ("c_build", "c18", "libs"),
    "C21": ("c_msgpack", "c21", "libs"),
    "C22": ("c_msgpack", "c22", "libs"),
    "C23": ("c_msgpack", "c23", "libs"),
    "C24": ("c_json", "c24", "libs"),
    "C25": ("c_json", "c25", "libs"),
    "C26": ("c_jsonread", "c26", "libs"),
    "C27": ("c_pretty", "c27", "libs"),
    "C29": ("c_docs", "c29", "libs"),
    "C28": ("c_jsonsay", "c28", "libs"),
    "C30": ("c_scal", "c30", "libs"),
    "C31": ("c_f64", "c31", "libs"),
}


def main(args):
    if args and args[0] == "--setup":
        facts.extract()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = args or sorted(CHECKS)
    if props == ["all"]:
        props = sorted(CHECKS)
    rc = 0
    got = {}
    for p in props:
        mod, fn = CHECKS[p][:2]
        part = CHECKS[p][2] if len(CHECKS[p]) > 2 else "all"
        if part not in got:
            try:
                got[part] = (facts.load(part), None)
            except facts.ExtractionFailed as e:
                got[part] = (None, e)
        fx, fail = got[part]
        r = report.Report(p)
        if fail is not None:
            lines = [l for l in fail.log.splitlines() if l.strip()]
            first = next((i for i, l in enumerate(lines) if l.startswith("error")), 0)
            detail = " / ".join(l.strip() for l in lines[first:first + 6])
            r.bad("extraction", "%s, so the property cannot be decided for it: %s" % (fail, detail[:600]))
        else:
            m = importlib.import_module("vf." + mod)
            getattr(m, fn)(fx, r)
        rc |= r.finish(tier, seed)
    return rc
