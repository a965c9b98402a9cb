#!/usr/bin/env python3
"""check.py <property id>: decides one property and writes evidence/<id>.json"""
import json, os, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build, symrun, registry
from build import BuildError

KNOWN = os.path.join(V, "known_findings.json")


def known():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN))["findings"]


def match_known(pid, h, v):
    for k in known():
        if k.get("status") == "fixed" or k["property"] != pid or k["harness"] != h.name or k["kind"] != v["kind"] or k["label"] != v["label"]:
            continue
        inp = dict((a, b) for a, b in v["inputs"])
        if "where" in k and k["where"] not in v.get("where", ""):
            continue
        if all(inp.get(a) == b for a, b in k.get("inputs", {}).items()):
            return k
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = registry.PROPS[pid]
    hs = prop.harnesses(tier)
    if not hs:
        print("no harnesses")
        return 2
    try:
        symx = [h for h in hs if h.engine == "symx"]
        nbuilt = symrun.prepare(symx) if symx else 0
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)[-4000:])
        return 2
    tmp = tempfile.mkdtemp(prefix="symx-")
    try:
        return decide(pid, tier, seed, prop, hs, nbuilt, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, prop, hs, nbuilt, tmp, t0):
    def one(ih):
        i, h = ih
        return h.run(os.path.join(tmp, "r%d.json" % i))

    order = sorted(enumerate(hs), key=lambda x: -x[1].time)
    res = [None] * len(hs)
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [(i, ex.submit(one, (i, h))) for i, h in order]
        for i, f in futs:
            res[i] = f.result()
    errors, viol, knownhits, inconclusive = [], [], [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "harnesses": [], "queries": 0, "solver_calls": 0, "solver_time_s": 0.0,
           "assertion_checks": 0, "instructions_interpreted": 0, "exhaustive": True}
    funcs = {}
    ready = {}
    validated_bad = []
    rdir = os.path.join(build.B, "replay")
    os.makedirs(rdir, exist_ok=True)
    for h, r in zip(hs, res):
        if "error" in r:
            errors.append("%s: %s" % (h.name, r["error"]))
            continue
        for f, n in r.get("functions", {}).items():
            funcs[f] = funcs.get(f, 0) + n
        cov["states"] += r["paths"]
        cov["transitions"] += r["forks"]
        cov["queries"] += r["solver"]["queries"]
        cov["solver_calls"] += r["solver"]["z3"]
        cov["solver_time_s"] += r["solver"]["time"]
        cov["assertion_checks"] += sum(r["asserts"].values())
        cov["instructions_interpreted"] += r["insts"]
        e = {"name": h.name, "source": "harness/" + h.src, "params": h.params, "paths": r["paths"], "paths_assumed_away": r.get("paths_assume", 0), "forks": r["forks"], "solver": r["solver"], "wall_s": r["wall"],
             "reach": r["reach"], "assertions": r["asserts"], "incomplete": r["incomplete"], "violations": len(r["violations"])}
        if h.bounds:
            e["bounds"] = h.bounds
        cov["harnesses"].append(e)
        if r["incomplete"]:
            cov["exhaustive"] = False
            inconclusive.append("%s: %s" % (h.name, r["incomplete"]))
        # violations: only those that the real code shows as well
        exe = None
        seen = set()
        reported = False
        for k, v in enumerate(r["violations"]):
            if exe is None:
                try:
                    exe = h.native()
                except BuildError as be:
                    errors.append("%s: native build failed: %s" % (h.name, str(be)[-1500:]))
                    break
            f = os.path.join(rdir, "%s-%s-%d.txt" % (pid, h.name, k))
            symrun.write_input(f, h, v["inputs"])
            rp = h.replay(exe, f)
            if not symrun.confirms(v, rp):
                inconclusive.append("%s: counterexample not reproduced natively: %s %s (%s)" % (h.name, v["kind"], v["label"], f))
                continue
            kf = match_known(pid, h, v)
            with open(f, "a") as o:
                o.write("# property %s, harness %s (%s)\n# %s: %s\n# at %s\n# reproduce: python3 %s/lib/replay.py %s %s\n" % (pid, h.name, h.src, v["kind"], v["label"], v.get("where", ""), V, pid, f))
                for s in v.get("stack", [])[:30]:
                    o.write("#   %s\n" % s)
                o.write("# native: rc=%s asserts=%s\n" % (rp["rc"], rp["asserts"]))
                for ln in rp["err"].splitlines()[-12:]:
                    o.write("#   | %s\n" % ln)
            if kf:
                knownhits.append((kf, h, v))
            else:
                viol.append((h, v, f))
                reported = True
        # vacuity
        if not reported:
            for lab in h.reach:
                if not r["reach"].get(lab):
                    errors.append("%s: never reached '%s'" % (h.name, lab))
        # push some path models through the native build
        if h.engine == "symx" and r["samples"]:
            if h.native_ready():
                try:
                    exe = exe or h.native()
                    n, bad = symrun.validate(h, exe, r["samples"], tmp)
                    cov["traces_validated_against_impl"] += n
                    validated_bad += [(h.name, b) for b in bad]
                except BuildError as be:
                    errors.append("%s: native build failed: %s" % (h.name, str(be)[-1500:]))
        elif h.engine != "symx":
            cov["traces_validated_against_impl"] += r.get("validated", 0)
            validated_bad += [(h.name, b) for b in r.get("validated_bad", [])]
        for s in r["samples"][:2]:
            if len(cov["samples"]) < 8:
                cov["samples"].append({"harness": h.name, "inputs": dict((a, b) for a, b in s["inputs"]), "observed": s["observed"][:12], "end": s["end"]})
    for n, b in validated_bad:
        errors.append("%s: the encoding and the native build disagree: %s" % (n, json.dumps(b)[:1500]))
    cov["solver_time_s"] = round(cov["solver_time_s"], 3)
    repo = sorted(f for f in funcs if not f.startswith("[stub]"))
    cov["functions_encoded"] = len(repo)
    cov["functions_stubbed"] = sorted(f for f in funcs if f.startswith("[stub]"))[:20]
    keys = prop.focus
    cov["functions_sample"] = [f for f in repo if any(k in f for k in keys)][:60] or repo[:40]
    cov["bounds"] = prop.bounds
    cov["inconclusive"] = inconclusive
    cov["tus_rebuilt"] = nbuilt
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": prop.assumptions + prop.common, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not cov["samples"]:
        cov["samples"] = [{"note": "no completed path"}]
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {k[0]["what"]: k[0] for k in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d harnesses, %d paths, %d assertion checks, %d solver calls (%.1fs), %d traces validated, %.1fs%s" % (
        pid, tier, len(hs), cov["states"], cov["assertion_checks"], cov["solver_calls"], cov["solver_time_s"], cov["traces_validated_against_impl"], time.time() - t0,
        "" if cov["exhaustive"] else " (not exhausted)"))
    for i in inconclusive:
        print("INCONCLUSIVE " + i)
    if viol:
        for h, v, f in viol:
            print("  %s: %s %s at %s inputs %s" % (h.name, v["kind"], v["label"], v.get("where", ""), v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][2]))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
