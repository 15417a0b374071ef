#!/usr/bin/env python3
"""Developer aid: run one harness symbolically, print its summary.  time1.py <file> <harness> [seconds]"""
import os, subprocess, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
p = run.Builder().program(sys.argv[1] + ".cpp", "sym")
sec = sys.argv[3] if len(sys.argv) > 3 else "200"
for h in sys.argv[2].split(","):
    t = time.time(); open("/tmp/time1.json","w").close()
    r = subprocess.run([p, "--harness", h, "--out", "/tmp/time1.json", "--jobs", "8", "--timeout", sec] + sys.argv[4:],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    j = next((json.loads(l) for l in open("/tmp/time1.json") if '"type":"summary"' in l), {}); j = {k: j.get(k) for k in ("paths","queries","unknown","timedout","unsupported_msg","wall_s","solver_s")}; print([json.loads(l).get("label") for l in open("/tmp/time1.json") if '"type":"viol' in l][:5])
    print(h, "%.1fs" % (time.time() - t), {k: v for k, v in j.items() if isinstance(v, (int, float, str))}, r.stderr[-300:])
