#!/usr/bin/env python3
"""fills the tables of DESIGN.md from design.src.md, notes, known-findings.jsonl and seeded/"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/tools"); sys.path.insert(0, R)
from notes import NOTES
from defs import D
s = open(R + "/tools/design.src.md").read()
props = "\n".join(f"### {d['id']} {d['title']}\n\n{NOTES.get(d['id'], '(not built)')}\n" for d in D)
kf = [json.loads(x) for x in open(R + "/known-findings.jsonl") if x.strip()]
fixed = "\n".join(f"- {k['what']}" for k in kf if k["status"] == "fixed")
known = "\n".join(f"- {k['property']}: {k['what']} (`{k.get('trace_id')}`)" for k in kf if k["status"] == "known") or "(none)"
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', m['property'])} |")
s = s.replace("@@PROPS@@", props).replace("@@FIXED@@", fixed).replace("@@KNOWN@@", known).replace("@@SEEDED@@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(s)
