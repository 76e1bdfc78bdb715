"""What a check prints and writes."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.viol = []  # (key, text, where)
        self.keys = set()
        self.samples = []
        self.counts = {}
        self.rules = []
        self.notes = []
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, text, where=""):
        self.obligations += 1
        if key in self.keys:
            return
        self.keys.add(key)
        self.viol.append((key, text, where))

    def check(self, cond, key, text, where="", sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, text() if callable(text) else text, where)
        return cond

    def floor(self, what, need):
        n = self.counts.get(what, 0)
        self.check(n >= need, "floor:" + what,
                   "only %d %s were found, at least %d are known to exist: the rule no longer sees what it must decide" % (n, what, need))

    def finish(self, tier, seed):
        known = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line:
                    continue
                k = json.loads(line)
                if k.get("status") == "known" and k.get("property") == self.prop:
                    known[k["key"]] = k["what"]
        new = []
        seen_known = []
        for key, text, where in self.viol:
            if key in known:
                seen_known.append(key)
                print("KNOWN-FINDING: property=%s [%s] %s" % (self.prop, key, known[key]))
            else:
                new.append((key, text, where))
        for key in known:
            if key not in seen_known:
                self.notes.append("listed finding no longer present: " + key)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % self.prop)
        if os.path.exists(rp):
            os.remove(rp)
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current working tree as resolved by the compiler "
                               "(constants, types, layouts, MIR); %d obligations, %d discharged, %d listed findings, %d violations."
                               % (self.obligations, self.discharged, len(seen_known), len(new)),
                "obligations": self.obligations,
                "discharged": self.discharged,
                "analysed": self.counts,
                "rule": " | ".join(self.rules) or "see DESIGN.md",
                "samples": self.samples[:12] or ["none"],
                "known_findings_present": seen_known,
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            with open(rp, "w") as f:
                for key, text, where in new:
                    f.write("[%s] %s%s\n" % (key, (where + ": ") if where else "", text))
            for key, text, where in new[:40]:
                print("  [%s] %s%s" % (key, (where + ": ") if where else "", text))
            if len(new) > 40:
                print("  ... %d more in %s" % (len(new) - 40, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK property=%s obligations=%d discharged=%d known=%d %s" % (
            self.prop, self.obligations, self.discharged, len(seen_known),
            " ".join("%s=%d" % kv for kv in sorted(self.counts.items()))))
        return 0
