#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (between markers)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.path.insert(0, V + "/lib")
from propdefs import PROPS, NA
import registry


def part(t, name, body):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if "@@%s@@" % name in t:
        return t.replace("@@%s@@" % name, b + "\n" + body + "\n" + e)
    i, j = t.index(b), t.index(e)
    return t[:i] + b + "\n" + body + "\n" + t[j:]


t = open(V + "/DESIGN.md").read()
rows = ["| id | property | engine, harness | bounds | quick |", "|---|---|---|---|---|"]
na = dict(NA)
for p in PROPS:
    if p["id"] in na:
        continue
    q = registry.PROPS[p["id"]]
    hs = q.harnesses("quick")
    ev = V + "/evidence/%s.json" % p["id"]
    w = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        w = "%d paths, %d s" % (e["coverage"]["states"], e["wall_s"])
    rows.append("| %s | %s | %s: %s | %s | %s |" % (p["id"], p["title"], ",".join(sorted({h.engine for h in hs})), ", ".join(sorted({h.src for h in hs})), "; ".join("%s: %s" % x for x in q.bounds.items()), w))
t = part(t, "TABLE", "\n".join(rows))
if "@@DEFECTS@@" in t:
    t = t.replace("@@DEFECTS@@\n", "")
c = V + "/build/catch.json"
res = json.load(open(c)) if os.path.exists(c) else {}
rows = ["| planted bug | property | caught by |", "|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    r = res.get(s)
    pid = json.load(open(V + "/seeded/%s/meta.json" % s))["property"]
    rows.append("| %s | %s | %s |" % (s, pid, "?" if not r else (", ".join(r["harness"]) or "yes") if r["caught"] else "not caught"))
if res or "@@CATCH@@" in t:
    t = part(t, "CATCH", "\n".join(rows))
t = part(t, "NA", "\n".join("* %s: %s" % x for x in NA) or "none")
open(V + "/DESIGN.md", "w").write(t)
