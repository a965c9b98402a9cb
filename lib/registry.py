"""The properties and the harnesses that decide them."""
from symrun import Harness, PyHarness, HASHZERO

COMMON = [
    "clang 18 -O1 (no vectorisation/unrolling) with -fwrapv translates the C++ sources; the interpreter executes the resulting LLVM bitcode",
    "libpotassco, tl::optional, mpark::variant and uintwide_t headers are absent from the sandbox: minimal stand-ins under /verif/stubs are used for both the encoding and the native build",
    "libstdc++ containers are the installed ones; iostreams are a small shim (/verif/shim) in the encoding and the real ones in the native build",
    "hash functions listed under functions_stubbed return 0 in the encoding (a legal hash), so hash quality is outside the claim",
    "memory allocation never fails; bounds are those listed under coverage.bounds and per harness",
]


class Prop:
    def __init__(self, pid, bounds, harnesses, focus=(), assumptions=(), common=None):
        self.pid, self.bounds, self._h, self.focus, self.assumptions = pid, bounds, harnesses, list(focus), list(assumptions)
        self.common = COMMON if common is None else common

    def harnesses(self, tier):
        return [h for t, h in self._h if t in ("both", tier)]


PROPS = {}


def prop(pid, bounds, hs, focus=(), assumptions=(), common=None):
    PROPS[pid] = Prop(pid, bounds, hs, focus, assumptions, common)


def H(src, name=None, tier="both", **kw):
    return (tier, Harness(name or src.split(".")[0], src, **kw))


def PH(src, name=None, tier="both", **kw):
    return (tier, PyHarness(name or src.split(".")[0], src, **kw))


PYCOMMON = [
    "the Python sources of the package are executed by CPython 3.12 with symbolic integers and booleans (operator overloading, one path per feasible branch, decided by Z3)",
    "the foreign function layer and the C library below the package are a stand-in (pysym/fake.py, pysym/fakeast.py) whose constants, structures and constructors are read from /repo's sources",
    "integers are unbounded in the encoding; conversion to C integer types is outside the claim",
    "bounds are those listed under coverage.bounds and per harness",
]


import props  # noqa: E402,F401  (fills PROPS)
