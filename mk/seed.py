#!/usr/bin/env python3
"""mk/seed.py new ID PROP 'needs' 'breaks' < main.rs   (bug = the uncommitted diff in /repo; reverted)
   mk/seed.py run [ID...]  clean demo, patched tests, patched demo, checks"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "BUILD FAILS\n" + b.stderr[-1500:]
    sh("bash /opt/vp/test.sh /tmp/seed-t.json")
    t = set(json.load(open("/tmp/seed-t.json"))["passed"])
    miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - t)
    return "tests ok" if not miss else "MISSING %d %s" % (len(miss), miss[:4])


def run(i, clean=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    out = [i, prop]
    if clean:
        p = sh("bash %s/demo.sh" % d, cwd=R)
        out.append("clean=%d" % p.returncode)
        if p.returncode:
            print(p.stdout[-1500:], p.stderr[-1500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr)
        return
    try:
        if clean:
            out.append(tests())
            p = sh("bash %s/demo.sh" % d, cwd=R)
            out.append("patched=%d" % p.returncode)
            print((p.stdout + p.stderr)[-400:])
        c = sh("./check %s" % ("all" if os.environ.get("ALL") else prop), cwd=V)
        got = [l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("caught-by=%s" % ",".join(got))
        for l in c.stdout.splitlines():
            if l.startswith("  [") and not os.environ.get("Q"):
                print(l[:300])
        if c.stderr.strip():
            print(c.stderr[-800:])
        if prop not in got:
            out.append("MISSED")
    finally:
        sh("git -C /repo checkout -- .")
    print(*out)
    return out


if sys.argv[1] == "new":
    i, prop, needs, brk = sys.argv[2:6]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no diff"
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(sys.stdin.read())
    for f in ("Cargo.toml", "Cargo.lock", "demo.sh"):
        shutil.copy(os.path.join(V, "mk", "demo", f), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": brk}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C /repo checkout -- .")
    run(i)
else:
    for i in (sys.argv[2:] or sorted(os.listdir(V + "/seeded"))):
        run(i, clean="CHECKONLY" not in os.environ)
