#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root]
from texts import P
try:
    from texts import NA
except ImportError:
    NA = {}
from props import PROPS
miss = [p for p in PROPS if p not in P] + [p for p in P if p not in PROPS and p not in NA]
assert not miss, miss
for p in P.values():
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P.values():
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("note", "level")}) + "\n")
man = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes="Every check symbolically executes the compiled functions of /repo (LLVM pass + z3), see DESIGN.md.")
for k in PROPS:
    man["checks"].append(dict(property=k, quick_cmd=f"python3 run.py check {k} --tier quick",
                              thorough_cmd=f"python3 run.py check {k} --tier thorough", evidence_file=f"evidence/{k}.json",
                              technique="symbolic execution of the compiled code (LLVM IR instrumentation), every branch and obligation decided by z3; counterexamples replayed natively",
                              level=P[k]["level"], level_note=P[k]["note"]))
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(root, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
print(len(P), "properties,", len(man["checks"]), "checks")
