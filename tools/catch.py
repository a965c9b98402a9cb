#!/usr/bin/env python3
"""catch.py [seed...]: applies each planted bug to /repo, runs the check of its property, undoes it; prints and stores the outcome in build/catch.json"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
out = os.path.join(V, "build", "catch.json")
res = json.load(open(out)) if os.path.exists(out) else {}
for s in sorted(os.listdir(V + "/seeded")):
    m = V + "/seeded/%s/meta.json" % s
    if not os.path.exists(m) or (want and s not in want) or (not want and s in res):
        continue
    pid = json.load(open(m))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    assert subprocess.run(["git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % s]).returncode == 0, s
    t = time.time()
    try:
        r = subprocess.run([sys.executable, V + "/check.py", pid], capture_output=True, text=True, cwd=V)
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    hit = r.returncode == 1 and ("VIOLATION property=%s " % pid) in r.stdout
    res[s] = {"property": pid, "caught": hit, "rc": r.returncode, "s": round(time.time() - t), "harness": sorted({l.split(":")[0].strip() for l in r.stdout.splitlines() if l.startswith("  ")})[:6]}
    print(s, pid, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, "%ds" % res[s]["s"], res[s]["harness"])
    if not hit:
        print("   ", r.stdout[-1500:])
    json.dump(res, open(out, "w"), indent=1)
