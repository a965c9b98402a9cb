"""run.py HARNESS --repo R [--out F --param k=v --time T] | --replay INPUTS"""
import argparse, importlib.util, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine, fake

ap = argparse.ArgumentParser()
ap.add_argument("harness")
ap.add_argument("--repo", default="/repo")
ap.add_argument("--out")
ap.add_argument("--param", action="append", default=[])
ap.add_argument("--time", type=float, default=100)
ap.add_argument("--samples", type=int, default=4)
ap.add_argument("--replay")
a = ap.parse_args()
repo = os.path.abspath(a.repo)
sys.path.insert(0, os.path.join(repo, "libpyclingo"))
fake.install(repo)
import clingo, clingo.ast, clingo.application, clingo.script, clingo.theory, clingo.util  # noqa: E401
for n, m in list(sys.modules.items()):
    if n.split(".")[0] == "clingo" and m is not None:
        assert os.path.abspath(m.__file__).startswith(repo), m.__file__
        m.isinstance = engine.sym_isinstance
spec = importlib.util.spec_from_file_location("harness", os.path.join(HERE, "..", "harness", a.harness))
h = importlib.util.module_from_spec(spec)
sys.modules["harness"] = h
h.sx, h.fk, h.lib, h.ffi = engine, fake, fake.lib, fake.ffi
spec.loader.exec_module(h)


def esc(s):
    return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\x%02x" % ord(c) for c in s)


if a.replay:
    params, vals = {}, {}
    for ln in open(a.replay):
        p = ln.split()
        if p and p[0] in "PV" and len(p) == 3:
            (params if p[0] == "P" else vals)[p[1]] = int(p[2])
    c = engine.Concrete(params, vals)
    try:
        h.main(c)
    except engine.Assumed:
        sys.exit(96)
    except engine.Unmodeled as e:
        print(e, file=sys.stderr)
        sys.exit(97)
    for k, v in c.observed:
        print("SYMX obs %s %s" % (k, esc(v)))
    for f in c.failed:
        print("SYMX assert " + f)
    sys.exit(0)
params = {p.split("=")[0]: int(p.split("=")[1]) for p in a.param}
e = engine.Engine(repo + "/", a.time, a.samples)
r = e.run(h.main, params)
if a.out:
    json.dump(r, open(a.out, "w"))
else:
    r["functions"] = len(r["functions"])
    print(json.dumps(r, indent=1))
