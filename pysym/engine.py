"""Executes a Python harness symbolically: integers and truth values are z3 terms, every branch on them is explored, assertions are decided by z3."""
import builtins, json, os, sys, time
import z3


class Stop(BaseException):
    pass


class Unmodeled(BaseException):
    """the code uses something that the stand-in for the library does not provide"""


class Assumed(BaseException):
    pass


class Limit(BaseException):
    pass


CTX = None


def lift(x):
    if type(x) is SInt:
        return x.e
    if type(x) is SBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def isnum(x):
    return type(x) in (SInt, SBool, int, bool)


def mkint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def mkbool(e):
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else SBool(e)


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return mkbool(self.e if o else z3.Not(self.e))
        return mkbool(lift(self) == lift(o)) if isnum(o) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)
    __rand__, __ror__ = __and__, __or__

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__


def _b(x):
    return x.e if type(x) is SBool else z3.BoolVal(bool(x)) if type(x) is not SInt else x.e != 0


def not_(x):
    return mkbool(z3.Not(_b(x)))


def and_(*xs):
    return mkbool(z3.And([_b(x) for x in xs]))


def or_(*xs):
    return mkbool(z3.Or([_b(x) for x in xs]))


def same(a, b):
    """equality of nested lists and values as one condition (bools and ints are told apart only for None)"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    r = (a is None) == (b is None) if a is None or b is None else a == b
    return r


class SInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return CTX.concrete(self.e)

    __int__ = __index__

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __repr__(self):
        return repr(int(self))

    def __str__(self):
        return str(int(self))

    def __format__(self, f):
        return format(int(self), f)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __float__(self):
        return float(int(self))


def _bin(name, f):
    def a(self, o):
        return mkint(f(lift(self), lift(o))) if isnum(o) else NotImplemented

    def r(self, o):
        return mkint(f(lift(o), lift(self))) if isnum(o) else NotImplemented
    setattr(SInt, "__%s__" % name, a)
    setattr(SInt, "__r%s__" % name, r)


_bin("add", lambda x, y: x + y)
_bin("sub", lambda x, y: x - y)
_bin("mul", lambda x, y: x * y)


def _conc(name):
    def a(self, o):
        return getattr(int(self), "__%s__" % name)(int(o)) if isnum(o) else NotImplemented

    def r(self, o):
        return getattr(int(o), "__%s__" % name)(int(self)) if isnum(o) else NotImplemented
    setattr(SInt, "__%s__" % name, a)
    setattr(SInt, "__r%s__" % name, r)


for _n in ("floordiv", "mod", "divmod", "pow", "lshift", "rshift", "truediv"):
    _conc(_n)


def _bits(name, z):
    def f(x, y):
        return z3.BV2Int(z(z3.Int2BV(x, 40), z3.Int2BV(y, 40)), True)

    def a(self, o):
        return _mask(self, o, name) if isnum(o) else NotImplemented
    setattr(SInt, "__%s__" % name, a)
    setattr(SInt, "__r%s__" % name, a)


def _mask(a, b, name):
    # a small constant mask is decided bit by bit; anything else is made concrete
    if type(a) is not SInt:
        a, b = b, a
    if type(b) is SInt or b < 0 or b > 1 << 16:
        return getattr(int(a), "__%s__" % name)(int(b))
    v = z3.IntVal(0)
    for i in range(b.bit_length()):
        if b >> i & 1:
            v = v + z3.If((a.e / (1 << i)) % 2 == 1, z3.IntVal(1 << i), z3.IntVal(0))
    return mkint(v if name == "and" else a.e + b - v if name == "or" else a.e + b - 2 * v)


for _n in ("and", "or", "xor"):
    _bits(_n, None)


def _cmp(name, f):
    def a(self, o):
        return mkbool(f(lift(self), lift(o))) if isnum(o) else NotImplemented
    setattr(SInt, "__%s__" % name, a)


_cmp("eq", lambda x, y: x == y)
_cmp("ne", lambda x, y: x != y)
_cmp("lt", lambda x, y: x < y)
_cmp("le", lambda x, y: x <= y)
_cmp("gt", lambda x, y: x > y)
_cmp("ge", lambda x, y: x >= y)


def sym_isinstance(x, c):
    """isinstance as seen by the code under test: a symbolic integer is an int"""
    if type(x) in (SInt, SBool):
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (int, object) or (k is bool and type(x) is SBool) or (getattr(k, "__module__", "") == "numbers") for k in cs)
    return isinstance(x, c)


class Api:
    """what a harness sees"""

    def __init__(self, params):
        self.params = params
        self.inputs = []
        self.observed = []
        self.asserts = {}
        self.reached = {}

    def param(self, n, d=0):
        return self.params.get(n, d)

    def pick(self, name, n):
        return int(self.int(name, 0, n - 1)) if n > 1 else 0

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def opt(self, name, lo, hi):
        """an integer or None"""
        return None if self.bool(name + "?") else self.int(name, lo, hi)

    def ints(self, name, n, lo, hi):
        """a list of up to n integers"""
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(self.pick("#" + name, n + 1))]

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def check_same(self, a, b, label):
        self.check(same(a, b), label)

    def fails(self, exc, f, label):
        """f raises exc"""
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)


class Concrete(Api):
    def __init__(self, params, values):
        super().__init__(params)
        self.values = values
        self.failed = []

    def int(self, name, lo, hi):
        v = self.values.get(name, lo)
        if v < lo or v > hi:
            raise Assumed()
        return v

    def assume(self, c):
        if not c:
            raise Assumed()

    def check(self, c, label):
        self.asserts[label] = self.asserts.get(label, 0) + 1
        if not c:
            self.failed.append(label)

    def observe(self, k, v):
        self.observed.append([k, str(v)])


class Ctx(Api):
    def __init__(self, params, eng, prefix):
        super().__init__(params)
        self.eng, self.prefix, self.pos = eng, prefix, 0
        self.trace = []
        self.s = z3.Solver()
        self.s.set("timeout", 20000)
        self.obs = []

        self.mod = None

    def add(self, e):
        self.s.add(e)
        if self.mod is not None and not z3.is_true(self.mod.eval(e, model_completion=True)):
            self.mod = None

    def known(self):
        """a model of the path condition"""
        if self.mod is None and self.sat():
            self.mod = self.s.model()
        return self.mod

    def sat(self, *es):
        t = time.time()
        r = self.s.check(*es)
        t = time.time() - t
        st = self.eng.stat
        st["z3"] += 1
        st["time"] += t
        st["max_time"] = max(st["max_time"], t)
        if r == z3.unknown:
            st["unknown"] += 1
            self.eng.incomplete["solver gave no answer"] = self.eng.incomplete.get("solver gave no answer", 0) + 1
        return r == z3.sat

    def tick(self):
        if time.time() > self.eng.end:
            raise Limit()

    def branch(self, e):
        self.tick()
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if self.known() is None:
                raise Stop()
            d = z3.is_true(self.mod.eval(e, model_completion=True))
            if self.sat(z3.Not(e) if d else e):
                self.eng.forks += 1
                self.eng.todo.append(self.trace + [not d])
        self.pos += 1
        self.trace.append(d)
        self.add(e if d else z3.Not(e))
        return d

    def concrete(self, e):
        """one path per value"""
        self.tick()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while self.pos < len(self.prefix):
            v, d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, d))
            self.add(e == v if d else e != v)
            if d:
                return v
        if self.known() is None:
            raise Stop()
        v = self.mod.eval(e, model_completion=True).as_long()
        if self.sat(e != v):
            self.eng.forks += 1
            self.eng.todo.append(self.trace + [(v, False)])
        self.pos += 1
        self.trace.append((v, True))
        self.add(e == v)
        return v

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.inputs.append((name, v))
        self.add(v >= lo)
        self.add(v <= hi)
        return SInt(v)

    def assume(self, c):
        if type(c) in (SBool, SInt):
            self.add(_b(c))
            if self.pos >= len(self.prefix) and not self.sat():
                raise Assumed()
        elif not c:
            raise Assumed()

    def model(self, *es):
        if not self.sat(*es):
            return None
        m = self.s.model()
        return [[n, m.eval(v, model_completion=True).as_long()] for n, v in self.inputs], m

    def violation(self, kind, label, where, extra=()):
        r = self.model(*extra)
        if r is None:
            return
        self.eng.violation(kind, label, where, r[0])

    def check(self, c, label):
        self.asserts[label] = self.asserts.get(label, 0) + 1
        self.eng.stat["queries"] += 1
        if type(c) in (SBool, SInt):
            b = _b(c)
            if self.known() is None:
                raise Stop()
            if not z3.is_true(self.mod.eval(b, model_completion=True)) or self.sat(z3.Not(b)):
                self.violation("assert", label, caller(), [z3.Not(b)])
                if not self.sat(b):
                    raise Stop()
            self.add(b)
        elif not c:
            self.violation("assert", label, caller())

    def observe(self, k, v):
        self.obs.append((k, v))


def caller():
    f = sys._getframe(2)
    while f and f.f_code.co_filename.endswith("engine.py"):
        f = f.f_back
    return "%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno) if f else ""


def show(v, m):
    if type(v) is SInt:
        return str(m.eval(v.e, model_completion=True).as_long())
    if type(v) is SBool:
        return str(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, list):
        return "[" + ", ".join(show(x, m) for x in v) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, m) for x in v) + ("," if len(v) == 1 else "") + ")"
    return v if isinstance(v, str) else repr(v)


class Engine:
    def __init__(self, repo, limit, samples):
        self.repo, self.limit, self.nsamples = repo, limit, samples
        self.stat = {"queries": 0, "z3": 0, "time": 0.0, "max_time": 0.0, "unknown": 0}
        self.forks = self.paths = self.assumed = self.calls = 0
        self.todo, self.viol, self.samples = [], {}, []
        self.incomplete, self.functions, self.reach, self.asserts = {}, {}, {}, {}

    def violation(self, kind, label, where, inputs):
        k = (kind, label, where)
        if k not in self.viol and len(self.viol) < 20:
            self.viol[k] = {"kind": kind, "label": label, "where": where, "inputs": inputs, "observed": [], "stack": []}

    def profile(self):
        """records the functions of the repository that are executed"""
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, "symbolic")

        def start(code, off):
            self.calls += 1
            if not code.co_filename.startswith(self.repo):
                return m.DISABLE
            n = "%s:%s" % (os.path.relpath(code.co_filename, self.repo), code.co_qualname)
            self.functions[n] = self.functions.get(n, 0) + 1
        m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
        m.set_events(m.PROFILER_ID, m.events.PY_START)

    def run(self, main, params):
        global CTX
        t0 = time.time()
        self.end = t0 + self.limit
        self.todo = [[]]
        self.profile()
        while self.todo:
            if time.time() > self.end:
                self.incomplete["time"] = len(self.todo)
                break
            c = CTX = Ctx(params, self, self.todo.pop())
            end = "return"
            try:
                main(c)
            except Assumed:
                self.assumed += 1
                continue
            except Stop:
                continue
            except Limit:
                self.incomplete["time"] = len(self.todo) + 1
                continue
            except Unmodeled as e:
                self.incomplete[str(e)] = self.incomplete.get(str(e), 0) + 1
                continue
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                w = [f for f in tb if f.filename.startswith(self.repo)] or tb
                c.violation("exception", "%s: %s" % (type(e).__name__, str(e)[:200]), "%s:%d" % (os.path.relpath(w[-1].filename, self.repo), w[-1].lineno))
                end = "exception"
            self.paths += 1
            for k, n in c.reached.items():
                self.reach[k] = self.reach.get(k, 0) + n
            for k, n in c.asserts.items():
                self.asserts[k] = self.asserts.get(k, 0) + n
            if end == "return" and (self.paths - 1) % max(1, 7 ** len(self.samples)) == 0 and len(self.samples) < self.nsamples:
                r = c.model()
                if r:
                    self.samples.append({"inputs": r[0], "observed": [[k, show(v, r[1])] for k, v in c.obs], "end": end})
        return {"paths": self.paths, "paths_assume": self.assumed, "forks": self.forks, "solver": {k: round(v, 4) for k, v in self.stat.items()}, "wall": round(time.time() - t0, 2), "insts": self.calls,
                "reach": self.reach, "asserts": self.asserts, "incomplete": self.incomplete, "violations": list(self.viol.values()), "samples": self.samples, "functions": self.functions}
