#!/usr/bin/env python3
"""mkseed.py [id...]: turns the entries of seeds.py into seeded/<id>/ (patch, demonstration, meta data); uses a scratch copy of /repo"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
KIT = os.path.join(V, "tools", "kit")
SW = "/tmp/mkseed-wt"


def sh(c, cwd=None, **kw):
    return subprocess.run(c, shell=True, cwd=cwd, text=True, capture_output=True, **kw)


def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


def main():
    from seeds import SEEDS
    want = set(sys.argv[1:])
    sh("git -C /repo worktree prune")
    shutil.rmtree(SW, ignore_errors=True)
    r = sh("git clone -q /repo %s" % SW)
    assert r.returncode == 0, r.stderr
    if os.path.isdir("/repo/_build") and any(s.get("demo") == "build" for s in SEEDS):
        pass
    # reference program
    def kit_run(src):
        p = "cd %s && . %s/kit.sh && trap - EXIT && %s && echo $T" % (SW, KIT, "build run.cc run")
        r = subprocess.run(["bash", "-c", p], text=True, capture_output=True)
        assert r.returncode == 0, r.stderr[-3000:]
        return r.stdout.strip().splitlines()[-1]
    base = None
    for s in SEEDS:
        d = os.path.join(V, "seeded", s["id"])
        if (want and s["id"] not in want) or (not want and os.path.exists(os.path.join(d, "ok"))):
            continue
        if not want and os.path.exists(os.path.join(d, "meta.json")):
            continue
        sh("git checkout -q -- . && git clean -qfd", cwd=SW)
        for f, old, new in s["edits"]:
            p = os.path.join(SW, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                print("FAIL %s: %d occurrences of %r" % (s["id"], t.count(old), old))
                break
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        else:
            patch = sh("git diff", cwd=SW).stdout
            files = {}
            if "tests" in s:
                if base is None:
                    sh("git stash -q", cwd=SW)
                    base = kit_run("run.cc")
                    sh("git stash pop -q", cwd=SW)
                demo = "#!/bin/bash\n. \"$(dirname \"$0\")/kit.sh\"\nbuild run.cc run\n"
                mod = kit_run("run.cc")
                diff = 0
                for mode, prg in s["tests"]:
                    a = subprocess.run([base + "/run", mode], input=prg, text=True, capture_output=True, timeout=60)
                    assert a.returncode == 0, (s["id"], prg)
                    try:
                        b = subprocess.run([mod + "/run", mode], input=prg, text=True, capture_output=True, timeout=10)
                        same = b.returncode == 0 and b.stdout == a.stdout and not b.stderr
                    except subprocess.TimeoutExpired:
                        same = False
                    if not same:
                        diff += 1
                    print("  ", mode, repr(prg), "->", repr(a.stdout), "changed:", "same" if same else repr(b.stdout))
                    demo += "expect %s %s %s\n" % (mode, q(prg), q(a.stdout.rstrip("\n")))
                shutil.rmtree(mod)
                if not diff:
                    print("FAIL %s: the demonstration does not show it" % s["id"])
                    continue
                demo += "echo ok\n"
                for f in os.listdir(KIT):
                    files[f] = open(os.path.join(KIT, f), "rb").read()
            else:
                demo = s["demo"]
            for f, c in s.get("files", {}).items():
                files[f] = c.encode() if isinstance(c, str) else c
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(patch)
            open(d + "/demo.sh", "w").write(demo)
            for f, c in files.items():
                open(os.path.join(d, f), "wb").write(c)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print("made", s["id"])
    shutil.rmtree(SW, ignore_errors=True)
    if base:
        shutil.rmtree(base)


main()
