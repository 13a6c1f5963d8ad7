#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R); sys.path.insert(0, os.path.join(R, "tools"))
from defs import D
from props import PROPS
NA = {}
try:
    from defs import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(R + "/properties.jsonl", "w") as f:
    for d in D:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for d in D:
    p = d["id"]
    if p in PROPS and p not in NA:
        checks.append(dict(property=p, quick_cmd=f"python3 run.py check {p} quick", thorough_cmd=f"python3 run.py check {p} thorough",
                           technique="TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC",
                           level="model_checking",
                           level_note=PROPS[p].get("note", "TLC exhausts the specification within the stated bounds; the real code is driven over generated histories and every recorded step must be a step of the specification. Trusts the driver's projection of observations and TLC.")))
na = [dict(property=d["id"], reason=NA.get(d["id"], "specification not built yet")) for d in D if d["id"] not in PROPS or d["id"] in NA]
m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the drivers use the public API only.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
