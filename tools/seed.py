#!/usr/bin/env python3
"""Makes and tries planted bugs (development tool; no check uses it).

  seed.py make FILE        FILE defines SEEDS = [dict(id, prop, file, old, new, needs, breaks, src, demo, flags, stubs)]
  seed.py try ID [...]     applies the patch in /repo, builds, tests, runs demo and check, undoes it
"""
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
R = os.environ.get("SEED_REPO", "/repo")
SH = """#!/bin/bash
# exit 0 when the guarantee holds, nonzero when it is broken; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
inc=""
for m in trajopt trajopt_common trajopt_sco trajopt_ifopt trajopt_optimizers/trajopt_sqp; do inc="$inc -I$repo/$m/include"; done
src=""
for s in %(src)s; do src="$src $repo/$s"; done
g++ -std=c++17 -w -ffunction-sections -fdata-sections -Wl,--gc-sections %(flags)s -I"$here" $inc -I"$repo" \\
  -isystem /usr/include/eigen3 -isystem /usr/include/jsoncpp "$here/demo.cpp" $src -o "$out/demo" %(libs)s || exit 2
cd "$out" && timeout 120 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(path):
    g = {}
    exec(open(path).read(), g)
    for s in g["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            t = open(os.path.join(R, f)).read()
            n = t.count(old)
            assert n == 1 or (n and s.get("nth")), (s["id"], f, n)
            if s.get("nth"):
                parts = t.split(old)
                k = s["nth"]
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                t = t.replace(old, new)
            open(os.path.join(R, f), "w").write(t)
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH % dict(src=" ".join(s.get("src", [])), flags=s.get("flags", ""), libs=s.get("libs", "-lconsole_bridge")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for st in s.get("stubs", []):
            shutil.copytree(os.path.join(V, "stubs", st), os.path.join(d, os.path.basename(st)) if not s.get("flat") else d, dirs_exist_ok=True)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "meta.json"), "a").write("\n")
        print("made", s["id"])


def attempt(i, check=True):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = "/tmp/seedwork/" + i
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    for f in ("patch.diff", "meta.json"):
        os.remove(tmp + "/" + f)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "dirty /repo"
    clean = sh("bash %s/demo.sh" % tmp, cwd=R)
    res = ["clean demo %d" % clean.returncode]
    if clean.returncode:
        res.append(clean.stdout[-600:])
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    try:
        if a.returncode:
            res.append("APPLY " + a.stdout[-300:])
        else:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seedwork/t.json")
            res.append("build %d tests %s" % (b.returncode, t.stdout.strip().split("\n")[-1][-60:]))
            p = sh("bash %s/demo.sh" % tmp, cwd=R)
            res.append("patched demo %d%s" % (p.returncode, " COMPILE?" if p.returncode == 2 else ""))
            if check:
                c = sh("python3-vt run.py check %s" % meta["property"], cwd=V)
                v = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]
                res.append("check %d %s" % (c.returncode, (v or c.stdout.strip().split("\n"))[-1][:140]))
    finally:
        sh("git -C %s checkout -q -- ." % R)
    print(i, meta["property"], "|", " | ".join(res), flush=True)


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        attempt(i)
    sh("bash /opt/vp/build.sh")
