"""replay.py <property> <file>: runs a recorded counterexample against the native build of /repo"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, symrun
pid, f = sys.argv[1:3]
name = re.search(r"harness (\S+)", open(f).read()).group(1)
for tier in ("quick", "thorough"):
    for h in registry.PROPS[pid].harnesses(tier):
        if h.name == name:
            rp = h.replay(h.native(), f)
            print(rp["out"])
            print(rp["err"])
            print("rc", rp["rc"])
            sys.exit(0)
print("unknown harness", name)
sys.exit(2)
