#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from propdefs import PROPS, NA, TECH, NOTE
out = []
for p in PROPS:
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["q"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"], "hook_needed": None},
    })
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
checks = []
na = dict(NA)
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": p.get("tech", TECH), "level": "model_checking", "level_note": p.get("note", NOTE), "evidence_file": "evidence/%s.json" % p["id"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA],
     "notes": "Bounded symbolic execution of the real sources (LLVM bitcode or Python source) with Z3; counterexamples are replayed against a native build before they are reported. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out), "properties,", len(checks), "checks")
