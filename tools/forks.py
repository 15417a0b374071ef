#!/usr/bin/env python3
"""Developer aid: where does a harness fork?  forks.py <file> <harness> [seconds] [extra args]"""
import bisect, collections, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
b = run.Builder()
p = b.program(sys.argv[1] + ".cpp", "sym")
sec = sys.argv[3] if len(sys.argv) > 3 else "60"
env = dict(os.environ, SYM_TRACE_FORKS="1")
r = subprocess.run([p, "--harness", sys.argv[2], "--out", "/dev/null", "--jobs", "8", "--timeout", sec] + sys.argv[4:], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
syms = []
for l in subprocess.run(["nm", "-C", p], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    q = l.split(" ", 2)
    if len(q) == 3 and q[0].strip() and q[1] in "tTwW":
        syms.append((int(q[0], 16), q[2]))
syms.sort()
keys = [s[0] for s in syms]
cnt = collections.Counter()
tot = 0
for l in r.stderr.splitlines():
    if not l.startswith("FORK"):
        continue
    tot += 1
    names = []
    for a in l.split()[1:]:
        i = bisect.bisect_right(keys, int(a, 16) - 1) - 1
        n = syms[i][1]
        if "__sym" in n or "(anonymous namespace)::d" in n:
            continue
        names.append(n[:90])
    cnt[" <- ".join(names[:3])] += 1
print("forks", tot)
for k, v in cnt.most_common(15):
    print(v, k)
