"""Runs one harness under symx and replays what it finds natively."""
import shutil, json, os, re, subprocess, sys, tempfile, time
import build
from build import VERIF, REPO, B, BuildError

HASHZERO = ["hash_key", "_M_hash_code", "_M_hash_code_tr", "_M_bucket_index", "hash_mix", "hash_combine", "strhash"]


class Harness:
    def __init__(self, name, src, tus="gringo", zero=HASHZERO, params=None, reach=(), time=120, mem=4000, flags=(), insts=0, path_insts=0, samples=3, libs=(), bounds=None):
        self.engine, self.bounds = "symx", bounds
        self.name, self.src, self.tus, self.zero = name, src, tus, list(zero)
        self.params, self.reach, self.time, self.mem, self.flags = dict(params or {}), list(reach), time, mem, list(flags)
        self.insts, self.path_insts, self.samples, self.libs = insts, path_insts, samples, list(libs)

    def tu_list(self):
        if isinstance(self.tus, (list, tuple)):
            return list(self.tus)
        t = {"none": [], "gringo": lambda: build.gringo_tus() + build.reify_tus(), "reify": build.reify_tus,
             "gringo+reify": lambda: build.gringo_tus() + build.reify_tus(),
             "clingo": lambda: build.gringo_tus() + build.reify_tus() + build.clingo_tus()}[self.tus]
        return t() if callable(t) else list(t)

    def items(self, native=False):
        r = [(t, [], "") for t in self.tu_list()]
        r.append(("verif:harness/" + self.src, list(self.flags), "+" + "_".join(self.flags) if self.flags else ""))
        if native:
            r.append(("verif:symx/natrt.cc", [], ""))
        else:
            r.append(("verif:symx/runtime.cc", [], ""))
            r.append(("verif:symx/rtc.cc", [], ""))
        return r


    def run(self, out):
        return run_symx(self, out)

    def native(self):
        return native_exe(self)

    def native_ready(self):
        return native_ready(self)

    def replay(self, exe, f):
        return replay(self, exe, f)


class PyHarness:
    """a harness for the Python package, executed by pysym"""
    RUN = os.path.join(VERIF, "pysym", "run.py")

    def __init__(self, name, src, params=None, reach=(), time=120, bounds=None, samples=4):
        self.engine, self.bounds, self.samples = "pysym", bounds, samples
        self.name, self.src, self.params, self.reach, self.time = name, src, dict(params or {}), list(reach), time

    def run(self, out):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        cmd = ["python3-vt", self.RUN, self.src, "--repo", REPO, "--out", out, "--time", str(self.time), "--samples", str(self.samples)]
        for k, v in self.params.items():
            cmd += ["--param", "%s=%d" % (k, v)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=self.time + 60, env=env)
        except subprocess.TimeoutExpired:
            return {"error": "no answer in time"}
        if p.returncode or not os.path.exists(out):
            return {"error": "rc %s: %s" % (p.returncode, p.stderr[-1500:])}
        r = json.load(open(out))
        r["harness"] = self.name
        d = os.path.dirname(os.path.abspath(out))
        r["validated"], r["validated_bad"] = validate(self, None, r["samples"], d, os.path.basename(out))
        return r

    def native(self):
        return None

    def native_ready(self):
        return True

    def replay(self, exe, f, timeout=60):
        """the package with the values of the counterexample and no symbolic execution"""
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run(["python3-vt", self.RUN, self.src, "--repo", REPO, "--replay", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return {"rc": "timeout", "out": "", "err": "", "asserts": [], "obs": []}
        return {"rc": p.returncode, "out": p.stdout, "err": p.stderr[-3000:], "asserts": re.findall(r"^SYMX assert (.*)$", p.stdout, re.M), "obs": re.findall(r"^SYMX obs (\S+) (.*)$", p.stdout, re.M)}


def prepare(harnesses):
    with build.Lock():
        build.build_symx()
        build.build_gen()
        seen, items = set(), []
        for h in harnesses:
            for i in h.items():
                k = json.dumps(i)
                if k not in seen:
                    seen.add(k)
                    items.append(i)
        outs, n = build.compile_all(items, "bc")
    return n


def outputs(h):
    r = []
    for t, fl, v in h.items():
        r.append(build.tu_out(t + v, "bc"))
    return r


def run_symx(h, out, timeout_extra=60, verbose=False, trace=False):
    cmd = [build.SYMX, "--out", out, "--repo", REPO + "/", "--time", str(h.time), "--mem", str(h.mem), "--samples", str(h.samples)]
    if h.insts:
        cmd += ["--insts", str(h.insts)]
    if h.path_insts:
        cmd += ["--path-insts", str(h.path_insts)]
    for z in h.zero:
        cmd += ["--zero", z]
    for k, v in h.params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if verbose:
        cmd += ["--forks"]
    if trace:
        cmd += ["--trace"]
    cmd += outputs(h)
    if os.path.exists(out):
        os.unlink(out)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if verbose or trace else subprocess.PIPE, text=True, errors="replace", timeout=h.time + timeout_extra)
    except subprocess.TimeoutExpired:
        return {"error": "symx did not stop in time", "harness": h.name}
    if not os.path.exists(out):
        return {"error": "symx failed (rc %s): %s" % (p.returncode, (p.stderr or "")[-2000:]), "harness": h.name}
    with open(out) as f:
        r = json.load(f)
    r["rc"] = p.returncode
    r["harness"] = h.name
    r["cpu"] = time.time() - t0
    return r


def native_exe(h):
    """builds the harness natively (with AddressSanitizer) against /repo's current sources"""
    with build.Lock():
        build.build_gen()
        outs, n = build.compile_all(h.items(native=True), "nat")
        exe = os.path.join(B, "nat", "exe_" + os.path.splitext(h.src)[0])
        key = json.dumps(outs + h.libs)
        st = exe + ".json"
        sig = json.dumps([[o, os.stat(o).st_mtime_ns] for o in outs])
        if not os.path.exists(exe) or not os.path.exists(st) or open(st).read() != sig:
            build.sh(["clang++", "-fsanitize=address", "-o", exe + ".tmp"] + outs + h.libs + ["-lpthread"])
            os.replace(exe + ".tmp", exe)
            with open(st, "w") as f:
                f.write(sig)
    return exe


def native_ready(h):
    """is the native build of the harness up to date already?"""
    for t, fl, v in h.items(native=True):
        out = build.tu_out(t + v, "nat")
        key = json.dumps([t, "nat", build.NATFLAGS, build.DEF, build.INC, list(fl), 0])
        if not build.up_to_date(out, key):
            return False
    return True


def write_input(path, h, inputs):
    with open(path, "w") as f:
        for k, v in h.params.items():
            f.write("P %s %d\n" % (k, v))
        for k, v in inputs:
            f.write("V %s %d\n" % (k, v))


def replay(h, exe, inputs_file, timeout=40):
    env = dict(os.environ, SYMX_INPUT=inputs_file, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", LC_ALL="C")
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "out": "", "err": "", "asserts": [], "obs": []}
    asserts = re.findall(r"^SYMX assert (.*)$", p.stdout, re.M)
    obs = re.findall(r"^SYMX obs (\S+) (.*)$", p.stdout, re.M)
    return {"rc": p.returncode, "out": p.stdout, "err": p.stderr[-3000:], "asserts": asserts, "obs": obs}


def confirms(v, rp):
    """does the native run show the violation?"""
    if v["kind"] == "assert":
        return v["label"] in rp["asserts"]
    if v["kind"] == "hang":
        return rp["rc"] == "timeout"
    if rp["rc"] == 96:
        return False
    return rp["rc"] not in (0, 96, 97)


def esc(s):
    return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\x%02x" % ord(c) for c in s)


def validate(h, exe, samples, tmpdir, tag=""):
    """pushes path models through the native build; returns (n, mismatches)"""
    bad = []
    n = 0
    for s in samples:
        f = os.path.join(tmpdir, "s%s.txt" % tag)
        write_input(f, h, s["inputs"])
        rp = h.replay(exe, f)
        exp = [(k, esc(x)) for k, x in s["observed"]]
        got = [(k, x) for k, x in rp["obs"]]
        n += 1
        if rp["rc"] != 0 or exp != got or rp["asserts"]:
            bad.append({"inputs": s["inputs"], "expected": exp, "got": got, "rc": rp["rc"], "asserts": rp["asserts"], "err": rp["err"][-600:]})
    return n, bad


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("src")
    ap.add_argument("--tus", default="gringo")
    ap.add_argument("--param", action="append", default=[])
    ap.add_argument("--time", type=int, default=120)
    ap.add_argument("--trace", action="store_true")
    ap.add_argument("--pi", type=int, default=0)
    ap.add_argument("--native", action="store_true")
    ap.add_argument("--forks", action="store_true")
    ap.add_argument("--fn", action="store_true")
    ap.add_argument("--samples", action="store_true")
    ap.add_argument("--stack", action="store_true")
    ap.add_argument("--nv", type=int, default=6)
    ap.add_argument("--nozero", action="store_true")
    ap.add_argument("--flag", action="append", default=[])
    a = ap.parse_args()
    tus = a.tus.split(",") if "/" in a.tus else a.tus
    h = Harness(os.path.splitext(a.src)[0], a.src, tus, params={p.split("=")[0]: int(p.split("=")[1]) for p in a.param}, time=a.time, flags=a.flag, path_insts=a.pi)
    if a.nozero:
        h.zero = []
    t = time.time()
    try:
        n = prepare([h])
    except BuildError as e:
        print(str(e)[-3000:])
        sys.exit(2)
    print("build %.1fs (%d compiled)" % (time.time() - t, n))
    out = "/tmp/symx_out_%d.json" % os.getpid()
    r = run_symx(h, out, verbose=a.forks, trace=a.trace)
    if os.path.exists(out):
        os.unlink(out)
    if "error" in r:
        print(r)
        sys.exit(2)
    sm = r.get("samples", [])
    sv = r["solver"]
    print("paths %d (+%d assumed away) forks %d wall %.1f z3 %d time %.1f max %.2f unknown %d insts %d" % (r["paths"], r.get("paths_assume", 0), r["forks"], r["wall"], sv["z3"], sv["time"], sv["max_time"], sv["unknown"], r["insts"]))
    print("reach", r["reach"], "asserts", r["asserts"], "incomplete", r["incomplete"])
    d = tempfile.mkdtemp()
    exe = native_exe(h) if a.native else None
    for v in r["violations"][:a.nv]:
        print("VIOL", v["kind"], v["label"], "|", v.get("where", "")[-90:], "|", " ".join("%s=%s" % (k, x) for k, x in v["inputs"]), "|", v.get("observed", ""))
        if a.stack:
            print("   " + "\n   ".join(v.get("stack", [])[:20]))
        if exe:
            f = os.path.join(d, "v.txt")
            write_input(f, h, v["inputs"])
            rp = replay(h, exe, f)
            print("   native:", "CONFIRMED" if confirms(v, rp) else "not reproduced", rp["rc"], rp["asserts"], [x for x in rp["obs"]][:6], rp["err"][:300])
    if a.fn:
        for k, n in sorted(r["functions"].items(), key=lambda x: -x[1])[:3000]:
            print(n, k)
    if exe:
        n, bad = validate(h, exe, sm, d)
        print("validated", n, "bad", str(bad)[:1500])
    elif a.samples:
        for x in sm:
            print(x)
    shutil.rmtree(d)
