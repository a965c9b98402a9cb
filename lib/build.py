"""Builds symx, the bitcode of /repo's translation units and native objects, cached by content."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
SYMX = os.path.join(B, "symx", "symx")
IRPREP = os.path.join(B, "symx", "irprep")
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


_hc = {}


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _hc:
        with open(path, "rb") as f:
            _hc[k] = hashlib.sha1(f.read()).hexdigest()
    return _hc[k]


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    return [d for d in t.split(":", 1)[1].split()]


def up_to_date(out, cmdkey):
    try:
        with open(out + ".json") as f:
            j = json.load(f)
    except Exception:
        return False
    if j["cmd"] != cmdkey or not os.path.exists(out):
        return False
    return all(fhash(d) == h for d, h in j["deps"].items())


def save_deps(out, cmdkey, deps):
    j = {"cmd": cmdkey, "deps": {d: fhash(d) for d in deps if not d.startswith("/usr/")}}
    with open(out + ".json.tmp", "w") as f:
        json.dump(j, f)
    os.replace(out + ".json.tmp", out + ".json")


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_symx():
    d = os.path.join(VERIF, "symx")
    o = os.path.join(B, "symx")
    os.makedirs(o, exist_ok=True)
    cfg = re.sub(r"-std=\S*|-fno-exceptions", "", sh(["llvm-config-18", "--cxxflags"])).split()
    ld = sh(["llvm-config-18", "--ldflags", "--libs"]).split()
    hdr = [os.path.join(d, h) for h in ("expr.h", "ir.h", "exec.h")]

    def one(args):
        src, out, link = args
        key = json.dumps([src, link])
        if up_to_date(out, key):
            return False
        cmd = ["g++", "-std=c++17", "-O2", "-w"] + cfg + [src] + (["-o", out + ".tmp"] + ld if link else ["-c", "-o", out + ".tmp"])
        sh(cmd)
        os.replace(out + ".tmp", out)
        save_deps(out, key, [src] + hdr)
        return True

    jobs = [(os.path.join(d, n + ".cc"), os.path.join(o, n + ".o"), False) for n in ("expr", "decode", "exec", "main")]
    jobs.append((os.path.join(d, "irprep.cc"), IRPREP, True))
    with ThreadPoolExecutor(JOBS) as ex:
        ch = list(ex.map(one, jobs))
    if any(ch[:4]) or not os.path.exists(SYMX):
        sh(["g++", "-o", SYMX + ".tmp"] + [j[1] for j in jobs[:4]] + ld + ["-lz3", "-lpthread"])
        os.replace(SYMX + ".tmp", SYMX)


GEN = os.path.join(B, "gen")


def build_gen():
    """lexers and parsers, generated the way the project's build does"""
    src = os.path.join(REPO, "libgringo/src/input")
    out = os.path.join(GEN, "input")
    os.makedirs(out, exist_ok=True)
    jobs = [
        ("groundtermlexer.xh", "groundtermlexer.hh", ["re2c", "-o"]),
        ("nongroundlexer.xch", "nongroundlexer.hh", ["re2c", "-c", "-o"]),
    ]

    def lex(j):
        s, t, c = j
        s = os.path.join(src, s)
        t = os.path.join(out, t)
        key = "lex"
        if up_to_date(t, key + s):
            return
        sh(c + [t + ".tmp", s])
        txt = open(t + ".tmp").read().replace(t + ".tmp", t)
        with open(t + ".tmp", "w") as f:
            f.write(txt)
        os.replace(t + ".tmp", t)
        save_deps(t, key + s, [s])

    def gram(n):
        s = os.path.join(src, n + ".yy")
        dd = os.path.join(out, n)
        os.makedirs(dd, exist_ok=True)
        t = os.path.join(dd, "grammar.cc")
        if up_to_date(t, "bison" + s):
            return
        sh(["bison", "-o", t, s])
        save_deps(t, "bison" + s, [s])

    with ThreadPoolExecutor(4) as ex:
        a = [ex.submit(lex, j) for j in jobs] + [ex.submit(gram, n) for n in ("groundtermgrammar", "nongroundgrammar")]
        for f in a:
            f.result()


INC = ["-I" + os.path.join(VERIF, "stubs"), "-I" + GEN, "-I" + os.path.join(REPO, "libgringo"), "-I" + os.path.join(REPO, "libgringo/src"),
       "-I" + os.path.join(REPO, "libreify"), "-I" + os.path.join(REPO, "libclingo"), "-I" + os.path.join(VERIF, "symx"), "-I" + os.path.join(VERIF, "harness")]
DEF = ["-DCLINGO_MAP_TYPE=0", "-DCLINGO_NO_VISIBILITY", "-DNDEBUG"]
SHIM = os.path.join(VERIF, "shim")
BCFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-gline-tables-only", "-w", "-fno-threadsafe-statics", "-fwrapv", "-fno-builtin",
           "-fno-pic", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSYMX=1", "-I" + SHIM]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fwrapv", "-fsanitize=address", "-fno-omit-frame-pointer"]


def tu_path(tu):
    """a TU is named by its path below /repo, or gen:<x>, or verif:<path below /verif>"""
    if tu.startswith("gen:"):
        return os.path.join(GEN, tu[4:])
    if tu.startswith("verif:"):
        return os.path.join(VERIF, tu[6:])
    return os.path.join(REPO, tu)


def tu_out(tu, kind):
    n = re.sub(r"[^A-Za-z0-9.]", "_", tu)
    return os.path.join(B, kind, n + (".bc" if kind.startswith("bc") else ".o"))


def compile_tu(tu, kind, extra=(), variant=""):
    out = tu_out(tu + variant, kind)
    src = tu_path(tu)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = (BCFLAGS if kind == "bc" else NATFLAGS)
    key = json.dumps([tu, kind, flags, DEF, INC, list(extra), fhash(IRPREP) if kind == "bc" else 0])
    if up_to_date(out, key):
        return out, False
    dep = out + ".d"
    cmd = ["clang++"] + flags + list(extra) + DEF + INC + ["-MD", "-MF", dep, "-c", src]
    if kind == "bc":
        raw = out + ".raw"
        sh(cmd + ["-o", raw])
        sh([IRPREP, raw, out + ".tmp"])
        os.unlink(raw)
    else:
        sh(cmd + ["-o", out + ".tmp"])
    os.replace(out + ".tmp", out)
    save_deps(out, key, parse_deps(dep))
    return out, True


def compile_all(items, kind):
    """items: list of (tu, extra flags, variant). Returns outputs; raises BuildError listing what does not compile."""
    def one(i):
        try:
            return compile_tu(i[0], kind, i[1], i[2])
        except BuildError as e:
            return e

    # big ones first
    def size(i):
        try:
            return -os.path.getsize(tu_path(i[0]))
        except OSError:
            return 0
    order = sorted(range(len(items)), key=lambda k: size(items[k]))
    res = [None] * len(items)
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {k: ex.submit(one, items[k]) for k in order}
        for k, f in futs.items():
            res[k] = f.result()
    errs = [str(r) for r in res if isinstance(r, Exception)]
    if errs:
        raise BuildError("\n".join(errs))
    return [r[0] for r in res], sum(1 for r in res if r[1])


GRINGO = ["libgringo/src/" + f for f in (
    "backend.cc defines.cc primes.cc symbol.cc term.cc terms.cc").split()]


def gringo_tus():
    r = []
    for d in ("libgringo/src", "libgringo/src/input", "libgringo/src/ground", "libgringo/src/output"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cc"):
                r.append(d + "/" + f)
    r += ["gen:input/groundtermgrammar/grammar.cc", "gen:input/nongroundgrammar/grammar.cc"]
    return r


def reify_tus():
    d = "libreify/src"
    return [d + "/" + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cc")]


def clingo_tus():
    """what of libclingo does not need the solver's sources"""
    d = "libclingo/src"
    return [d + "/" + f for f in ("astv2.cc", "astv2_build.cc", "astv2_parse.cc", "astv2_str.cc", "astv2_unpool.cc", "control.cc", "scripts.cc", "incmode.cc")]
