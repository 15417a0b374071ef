"""record_fix.py PROP HASH WHAT : append a 'fixed' record to known_findings.json (used by hand, never by a check)."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
k = d if isinstance(d, list) else d["findings"]
prop, h, what = sys.argv[1:4]
k.append(dict(property=prop, status="fixed", commit=h, what=what, line=f"fixed: property={prop} {h} {what}"))
json.dump(d, open(p, "w"), indent=1)
