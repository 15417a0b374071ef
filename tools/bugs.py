#!/usr/bin/env python3
"""Tries hand-written bugs against the checks in a scratch copy (development tool; no check uses it).

  bugs.py REPO BUILD FILE [ID ...]    FILE defines BUGS = [(id, prop, [(file, old, new), ...])]; REPO is a scratch clone
"""
import os, subprocess, sys, time
R, B, F = sys.argv[1:4]
g = {}
exec(open(F).read(), g)
env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B)
for i, p, edits in g["BUGS"]:
    if len(sys.argv) > 4 and i not in sys.argv[4:]:
        continue
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    try:
        for f, old, new in edits:
            t = open(os.path.join(R, f)).read()
            assert t.count(old) >= 1, "not found: " + old
            assert t.count(old) == 1, "ambiguous: " + old
            open(os.path.join(R, f), "w").write(t.replace(old, new))
    except Exception as e:
        print(i, p, "EDIT", e, flush=True)
        continue
    t0 = time.time()
    res = []
    for q in p.split():
        r = subprocess.run(["nice", "-n", "5", "python3-vt", "run.py", "check", q], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
        last = (r.stdout.strip().split("\n") or [""])
        res.append("%s exit %d %s" % (q, r.returncode, os.path.basename(v[0]).replace(".case", "")[:70] if v else " ".join(x for x in last if x.startswith("ERROR"))[:300]))
        if r.returncode == 1:
            break
    print("CAUGHT" if "exit 1" in res[-1] else "MISSED", i, "|", " | ".join(res), "%ds" % (time.time() - t0), flush=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
