#!/usr/bin/env python3
"""mk/mut.py FILE [names]   FILE defines M = [(name, file, old, new[, count])] (or (name, [(file, old, new), ...])).
Each change is applied to a scratch copy of /repo and the checks in $CH (e.g. "C10,C11") run on it.
Development aid: prints CAUGHT or quiet per change.  J=<parallel workers>."""
import os, sys, subprocess, shutil, concurrent.futures as cf, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
CH = os.environ.get("CH", "C10").split(",")
J = int(os.environ.get("J", "4"))
CODE = '''
import sys, os, io, contextlib, importlib
sys.path[:0] = [%r]
from vf import facts, report, main
part = "all" if any(len(main.CHECKS[c]) < 3 for c in %r) else "libs"
try:
    fx = facts.load(part)
except facts.ExtractionFailed as e:
    print("   BUILD", [l for l in e.log.splitlines() if l.startswith("error")][:3]); sys.exit()
for c in %r:
    m, f = main.CHECKS[c][:2]
    r = report.Report(c)
    r.path = os.environ["EV"]
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        try:
            getattr(importlib.import_module("vf." + m), f)(fx, r)
            r.finish("quick", 1)
        except Exception as e:
            import traceback; traceback.print_exc(); print("CRASH", c, repr(e))
    L = b.getvalue().splitlines()
    if any(x.startswith("VIOLATION") for x in L):
        n = sum(1 for x in L if x.startswith("  ["))
        print("   CAUGHT", c, n, [x for x in L if x.startswith("  [")][0][:%d])
    if any(x.startswith("CRASH") for x in L): print("  ", L[-1])
import shutil; shutil.rmtree(fx.path, ignore_errors=True)
''' % (V, CH, CH, int(os.environ.get("W", "260")))


def one(m):
    name, edits = m[0], (m[1] if isinstance(m[1], list) else [tuple(m[1:5])])
    d = "/tmp/mut%d/r%s" % (os.getpid(), name)
    shutil.copytree(os.environ.get("BASE", "/repo"), d, ignore=shutil.ignore_patterns("target", ".git"))
    try:
        for e in edits:
            p = os.path.join(d, e[0])
            s = open(p).read()
            if e[1] not in s:
                return name + " NO MATCH " + e[1][:60]
            open(p, "w").write(s.replace(e[1], e[2], e[3] if len(e) > 3 else 1))
        env = dict(os.environ, VF_REPO=d, EV=d + "/ev", CARGO_BUILD_JOBS="3")
        o = subprocess.run([sys.executable, "-c", CODE], capture_output=True, text=True, env=env, cwd=V)
        return name + "\n" + (o.stdout.rstrip() or "   ---- quiet") + (("\n   ERR " + o.stderr[-700:]) if o.returncode else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


os.makedirs("/tmp/mut%d" % os.getpid())
todo = [m for m in ns["M"] if not only or m[0] in only]
with cf.ThreadPoolExecutor(J) as ex:
    for f in ex.map(one, todo):
        print(f, flush=True)
shutil.rmtree("/tmp/mut%d" % os.getpid(), ignore_errors=True)
