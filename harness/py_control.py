# solving and grounding from Python: what reaches the library, what reaches callbacks, and which errors reach the caller
from clingo.control import BackendType, Control
from clingo.solving import Model, ModelType, SolveControl, SolveHandle, SolveResult
from clingo.symbol import Function, Number, String, Tuple_

I32 = 2**31


class Custom(Exception):
    pass


def control():
    lib.on("clingo_control_free", lambda rep: None)
    return Control(fk.NULL)


def known(atoms, name="clingo_control_symbolic_atoms"):
    """symbolic atoms of the library: symbol to literal"""
    def setp(f):
        def g(*a):
            a[-1][0] = f(*a[1:-1])
            return True
        return g
    keys = list(atoms)
    lib.on(name, lambda rep, p: p.__setitem__(0, "ATOMS") or True)
    lib.on("clingo_symbolic_atoms_find", setp(lambda s: ("it", s if s in atoms else None)))
    lib.on("clingo_symbolic_atoms_is_valid", setp(lambda it: it[1] is not None))
    lib.on("clingo_symbolic_atoms_literal", setp(lambda it: atoms[it[1]]))


def literals(x, n):
    """literals as a user gives them and as the library should receive them; an unknown atom is false"""
    la = x.int("a", 1, I32 - 1)
    sa = Function("a", [Number(1)])
    known({sa._rep: la})
    known({sa._rep: la}, "clingo_solve_control_symbolic_atoms")
    user, want = [], []
    for i in range(x.pick("#", n + 1)):
        k = x.pick("k%d" % i, 3)
        pos = x.bool("p%d" % i)
        if k == 0:
            l = x.int("l%d" % i, -I32 + 1, I32 - 1)
            user.append(l)
            want.append(l)
        elif k == 1:
            user.append((sa, pos))
            want.append(la if pos else -la)
        else:
            user.append((Function("u", []), pos))
            want.append(-1 if pos else 1)
    return user, want


def plain(p, n):
    return [] if p is fk.NULL else [p[i] for i in range(n)]


def text(p):
    return fk.text(p)


def outcome(f):
    try:
        return "ok", f()
    except Custom as e:
        return "custom", e
    except MemoryError as e:
        return "memory", e
    except RuntimeError as e:
        return "runtime", e


def solving(x):
    ctl = control()
    mode = x.pick("mode", 4)
    user, want = literals(x, x.param("n", 2) if mode else 1)
    bits, core, last = x.int("bits", 0, 15), [x.int("c%d" % i, -I32 + 1, I32 - 1) for i in range(x.pick("#core", 3))], x.bool("last")
    fails = x.pick("fails", 2 if mode else 4)
    raises = 0 if fails or mode else x.pick("raises", 3)
    log = []

    def solve(rep, m, a, n, cb, data, ph):
        x.check_same(m, (lib.clingo_solve_mode_yield if mode & 1 else 0) | (lib.clingo_solve_mode_async if mode & 2 else 0), "mode")
        x.check_same(plain(a, n), want, "assumptions")
        x.check(n == len(want), "number of assumptions")
        if fails == 1:
            return lib.fail("clingo_error_runtime", "a")
        ph[0] = "H"
        return True

    def get(h, p):
        log.append("get")
        p[0] = bits
        return lib.fail("clingo_error_bad_alloc", "b") if fails == 2 else True

    def getcore(h, p, n):
        p[0], n[0] = fk.Mem(list(core)), len(core)
        return True

    def getlast(h, p):
        p[0] = "M" if last else fk.NULL
        return True

    def close(h):
        log.append("close")
        return lib.fail("clingo_error_logic", "c") if fails == 3 else True
    for n, f in (("solve", solve),):
        lib.on("clingo_control_" + n, f)
    for n, f in (("get", get), ("core", getcore), ("last", getlast), ("close", close)):
        lib.on("clingo_solve_handle_" + n, f)
    got = []

    def on_core(c):
        got.append(("core", c))
        if raises == 1:
            raise Custom("x")

    def on_last(m):
        got.append(("last", m._rep))
        if raises == 2:
            raise Custom("y")
    kind, r = outcome(lambda: ctl.solve(user, on_core=on_core if x.bool("core") else None, on_last=on_last if x.bool("onlast") else None, yield_=bool(mode & 1), async_=bool(mode & 2)))
    x.observe("result", kind)
    if fails == 1:
        x.check(kind == "runtime" and str(r) == "a", "failure")
        x.check(not log and not got, "nothing happens after a failure")
        return x.reach("end")
    if mode:
        x.check(kind == "ok" and isinstance(r, SolveHandle) and not log and not got, "handle")
        return x.reach("end")
    x.check(log == ["get", "close"], "the search is closed")
    if fails == 3:
        x.check(kind == "runtime" and str(r) == "c", "failure to close")
        return x.reach("end")
    if fails == 2:
        x.check(kind == "memory" and str(r) == "b" and not got, "failure to get")
        return x.reach("end")
    unsat = sx.and_(bits & lib.clingo_solve_result_unsatisfiable != 0, bits & lib.clingo_solve_result_satisfiable == 0) if not isinstance(bits, int) else bits & 3 == 2
    exp = []
    stop = False
    # a search is either satisfiable or unsatisfiable
    x.assume(sx.or_(bits & 1 == 0, bits & 2 == 0))
    if x.bool("core") and unsat:
        exp.append(("core", core))
        stop = raises == 1
    if x.bool("onlast") and last and not stop:
        exp.append(("last", "M"))
        stop = raises == 2
    x.check_same(got, exp, "core and last model")
    x.check(kind == ("custom" if stop else "ok"), "errors in callbacks")
    if not stop:
        x.check_same(r._rep, bits, "result")
    x.reach("end")


def result(x):
    b = x.int("bits", 0, 15)
    sat, uns = b & lib.clingo_solve_result_satisfiable != 0, b & lib.clingo_solve_result_unsatisfiable != 0
    x.assume(sx.not_(sx.and_(sat, uns)))
    r = SolveResult(b)
    tri = lambda v, t, f: (v is True) == bool(t) and (v is False) == bool(f) and (v is None) == (not t and not f)
    x.check(tri(r.satisfiable, sat, uns), "satisfiable")
    x.check(tri(r.unsatisfiable, uns, sat), "unsatisfiable")
    x.check(bool(r.unknown) == (not sat and not uns), "unknown")
    x.check(bool(r.exhausted) == bool(b & lib.clingo_solve_result_exhausted != 0), "exhausted")
    x.check(bool(r.interrupted) == bool(b & lib.clingo_solve_result_interrupted != 0), "interrupted")
    x.check(str(r) == ("SAT" if sat else "UNSAT" if uns else "UNKNOWN"), "text")
    x.reach("end")


def events(x):
    """a history of events during a search"""
    ctl = control()
    n = x.pick("#events", x.param("events", 2) + 1)
    has = {k: x.bool("has" + k) for k in ("model", "unsat", "statistics", "finish")}
    log, want = [], []
    raised = []
    evs = []
    for i in range(n):
        k = ("model", "unsat", "statistics", "finish")[x.pick("e%d" % i, 4)]
        evs.append((k, x.pick("r%d" % i, 5 if k == "model" else 2), [x.int("v%d" % i, -I32, I32 - 1)] * x.pick("s%d" % i, 3) if k == "unsat" else x.int("b%d" % i, 0, 15) if k == "finish" else None))
    code = x.pick("code", 2)
    cur = []

    def hook(k, conv):
        def f(*a):
            i, r = cur[-1]
            log.append((i, k, conv(*a)))
            if r == (4 if k == "model" else 1):
                e = Custom("e%d" % i)
                raised.append(e)
                raise e
            return [None, True, False, 0][r] if k == "model" else None
        return f if has[k] else None

    def solve(rep, m, a, num, cb, data, ph):
        ph[0] = "H"
        x.check(a is fk.NULL or num == 0, "no assumptions")
        first = None
        for i, (k, r, v) in enumerate(evs):
            cur.append((i, r))
            go = fk.Mem([True])
            t = getattr(lib, "clingo_solve_event_type_" + k)
            e = {"model": "M%d" % i, "finish": fk.Mem([v]), "statistics": fk.Mem(["S%d" % i, "A%d" % i]), "unsat": fk.Mem([fk.Mem(v), len(v)]) if k == "unsat" else None}[k]
            ok = cb(t, e, data, go)
            if has[k]:
                want.append((i, k, {"model": "M%d" % i, "finish": v, "statistics": ("S%d" % i, "A%d" % i), "unsat": v}[k]))
            bad = bool(has[k]) and r == (4 if k == "model" else 1)
            x.check(bool(ok) == (not bad), "callback succeeds unless it raises")
            if not bad:
                x.check(bool(go[0]) == (not (k == "model" and has[k] and r in (2, 3))), "search continues unless the callback returns false")
            elif first is None:
                first = i
                if code:
                    # the library fails with an error of its own
                    return lib.fail("clingo_error_runtime", "own")
                return False
        return True
    lib.on("clingo_control_solve", solve)
    lib.on("clingo_solve_handle_get", lambda h, p: p.__setitem__(0, 1) or True)
    lib.on("clingo_solve_handle_close", lambda h: True)
    lib.on("clingo_statistics_root", lambda s, p: p.__setitem__(0, 7) or True)
    lib.on("clingo_statistics_type", lambda s, k, p: p.__setitem__(0, lib.clingo_statistics_type_map) or True)
    kind, r = outcome(lambda: ctl.solve(on_model=hook("model", lambda m: m._rep), on_unsat=hook("unsat", lambda l: l), on_finish=hook("finish", lambda r: r._rep), on_statistics=hook("statistics", lambda s, a: (s._rep, a._rep))))
    x.observe("outcome", kind)
    x.check_same(log, want, "what callbacks receive")
    if raised and not code:
        x.check(kind == "custom" and str(r) == str(raised[0]), "the exception of the callback is raised")
    elif raised:
        x.check(kind == "runtime" and str(r) == "own", "the error of the library is raised")
    else:
        x.check(kind == "ok", "no error")
    # errors of an earlier search are forgotten
    lib.on("clingo_control_solve", lambda *a: lib.fail("clingo_error_unknown", "later"))
    kind, r = outcome(lambda: ctl.solve())
    x.check(kind == "runtime" and str(r) == "later", "earlier errors are forgotten")
    x.reach("end")


def grounding(x):
    ctl = control()
    n = x.int("n", -I32, I32 - 1)
    m = x.int("m", -I32, I32 - 1)
    params = [[], [Number(n)], [Number(n), Function("f", [Number(m)])]]
    use = x.pick("context", 2) == 1
    parts = [("p%d" % i, params[x.pick("k%d" % i, 3)]) for i in range(1 if use else x.pick("#parts", 3))]
    ret = x.pick("ret", 7) if use else 0
    args = [Number(m)] * (x.pick("args", 3) if use else 0)
    log, got = [], []

    class Context:
        def __bool__(self):
            return not falsy

        def fun(self, *a):
            log.append([y._rep for y in a])
            if ret == 0:
                return Number(n)
            if ret == 1:
                return []
            if ret == 2:
                return [Number(n), Number(m)]
            if ret == 3:
                return (Function("g", [Number(n)]),)
            if ret == 4:
                return iter([Number(n), Number(m)])
            if ret == 5:
                raise Custom("boom")
            return Tuple_([Number(n)])
    falsy = x.param("falsy") and x.pick("falsy", 2) == 1
    fails = x.pick("fails", 3 if use else 2)
    name = "nofun" if use and not fails and x.pick("missing", 2) else "fun"

    def ground(rep, p, k, cb, data):
        x.check(k == len(parts), "number of parts")
        x.check_same([(text(p[i].name), [p[i].params[j] for j in range(p[i].size)]) for i in range(k)], [(a, [s._rep for s in b]) for a, b in parts], "parts")
        if fails == 1:
            return lib.fail("clingo_error_runtime", "a")
        if not use:
            x.check(cb is fk.NULL and data is fk.NULL, "no context")
            return True
        x.check(cb is not fk.NULL, "context is passed")
        if cb is fk.NULL:
            return True

        def symcb(s, size, d):
            x.check(d == "DATA", "data of symbol callback")
            got.append([s[i] for i in range(size)])
            return lib.fail("clingo_error_logic", "c") if fails == 2 else True
        return cb("LOC", fk.cstr(name), fk.Mem([a._rep for a in args]), len(args), data, symcb, "DATA")
    lib.on("clingo_control_ground", ground)
    c = Context() if use else None
    kind, r = outcome(lambda: ctl.ground(parts, c) if name == "fun" else tryattr(lambda: ctl.ground(parts, c)))
    x.observe("outcome", kind)
    if fails == 1:
        x.check(kind == "runtime" and str(r) == "a", "failure")
    elif not use:
        x.check(kind == "ok", "no error")
    elif name != "fun":
        x.check(kind == "ok" and r == "attribute", "missing functions are reported")
    else:
        x.check_same(log, [[a._rep for a in args]], "arguments of functions")
        N, M = ("num", n), ("num", m)
        exp = [[N], [], [N, M], [("fun", "g", (N,), True)], [N, M], None, [("fun", "", (N,), True)]][ret]
        x.check_same(got, [] if ret == 5 else [exp], "results of functions")
        if ret == 5:
            x.check(kind == "custom" and str(r) == "boom", "exceptions of functions")
        elif fails == 2:
            x.check(kind == "runtime" and str(r) == "c", "failure while passing results")
        else:
            x.check(kind == "ok", "no error")
    x.reach("end")


def tryattr(f):
    try:
        return f()
    except AttributeError:
        return "attribute"


def rec(x, name, out=None, ok=True, direct=None):
    """a library function: records its arguments, writes its result"""
    got = []

    def f(*a):
        a = list(a)
        if direct is not None:
            got.append(a)
            return direct
        if out is not None:
            a.pop()[0] = out
        got.append([fk.text(y) if isinstance(y, (fk.Str, bytes)) else y for y in a])
        return True if ok else lib.fail("clingo_error_runtime", "failed")
    lib.on(name, f)
    return got


def simple(x):
    """methods of controls, models and solve controls that pass on their arguments"""
    ctl = control()
    ctl._rep = "CTL"
    mod, sc = Model("MOD"), SolveControl("CTX")
    num = lambda n: x.int(n, -I32 + 1, I32 - 1)
    ok = x.pick("ok", 2) == 1
    b = x.bool("b")
    s = ["", "a", "b c"][x.pick("str", 3)]
    la, lb = x.int("la", 1, I32 - 1), x.int("lb", 1, I32 - 1)
    A, B, U = Function("a", []), Function("b", [Number(1)]), Function("u", [])
    known({A._rep: la, B._rep: lb})
    known({A._rep: la, B._rep: lb}, "clingo_solve_control_symbolic_atoms")
    c = x.pick("call", 30)
    arr = lambda g, i: [g[i][k] for k in range(g[i + 1])]

    def expect(got, want, f, conv=lambda g: g, res=None, val=None):
        kind, r = outcome(f)
        x.check(len(got) == 1, "called once")
        x.check_same(conv(got[0]), want, "arguments %d" % c)
        x.check(kind == ("ok" if ok else "runtime"), "failures are raised")
        if ok and val is not None:
            val(r)
        elif ok and res is not None:
            x.check_same(r, res, "result %d" % c)
    C = "clingo_control_"
    if c == 0:
        ps = ["t", "long name"][: x.pick("np", 3)]
        expect(rec(x, C + "add", ok=ok), ["CTL", "part", ps, s], lambda: ctl.add("part", ps, s), lambda g: [g[0], g[1], [fk.text(y) for y in arr(g, 2)], g[4]])
    elif c == 1:
        expect(rec(x, C + "add", ok=ok), ["CTL", "base", 0, s], lambda: ctl.add(s) if x.bool("kw") else ctl.add(program=s), lambda g: [g[0], g[1], g[3], g[4]])
    elif c == 2:
        expect(rec(x, C + "remove_minimize", ok=ok), ["CTL"], ctl.remove_minimize)
    elif c in (3, 4):
        n = num("n")
        expect(rec(x, C + "update_project", ok=ok), ["CTL", [la, n, lb], c == 3], lambda: (ctl.add_project if c == 3 else ctl.replace_project)([A, n, B]), lambda g: [g[0], arr(g, 1), g[3]])
    elif c == 5:
        expect(rec(x, C + "update_project", ok=ok), ["CTL", 0, False], ctl.remove_project, lambda g: [g[0], g[2], g[3]])
    elif c == 6:
        n, t = num("n"), x.pick("t", 3)
        k = x.pick("which", 3)
        e = [n, B, U][k]
        expect(rec(x, C + "assign_external", ok=ok), ["CTL", [n, lb, 0][k], [lib.clingo_external_type_free, lib.clingo_external_type_true, lib.clingo_external_type_false][t]], lambda: ctl.assign_external(e, [None, True, False][t]))
    elif c == 7:
        n, k = num("n"), x.pick("which", 3)
        expect(rec(x, C + "release_external", ok=ok), ["CTL", [n, lb, 0][k]], lambda: ctl.release_external([n, B, U][k]))
    elif c == 8:
        expect(rec(x, C + "cleanup", ok=ok), ["CTL"], ctl.cleanup)
    elif c == 9:
        has = x.pick("has", 2) == 1
        n = num("n")
        g1, g2 = rec(x, C + "has_const", out=has, ok=ok), rec(x, C + "get_const", out=("num", n))
        kind, r = outcome(lambda: ctl.get_const(s))
        x.check_same(g1, [["CTL", s]], "name")
        x.check_same(g2, [["CTL", s]] if ok and has else [], "name")
        x.check(kind == ("ok" if ok else "runtime"), "failures are raised")
        if ok:
            x.check_same(None if r is None else r._rep, ("num", n) if has else None, "constant")
    elif c == 10:
        g = rec(x, C + "interrupt", direct=True)
        ctl.interrupt()
        x.check_same(g, [["CTL"]], "interrupt")
    elif c == 11:
        expect(rec(x, C + "load", ok=ok), ["CTL", s], lambda: ctl.load(s))
    elif c == 12:
        fs = ["x", "y z"][: x.pick("nf", 3)]
        expect(rec(x, C + "load_aspif", ok=ok), ["CTL", fs], lambda: ctl.load_aspif(fs), lambda g: [g[0], [fk.text(y) for y in arr(g, 1)]])
    elif c == 13:
        t, sc_, st = x.pick("t", 3), x.bool("sccs"), x.bool("steps")
        bits = [lib.clingo_backend_type_aspif, lib.clingo_backend_type_smodels, lib.clingo_backend_type_reify][t]
        bits |= (lib.clingo_backend_type_reify_sccs if sc_ else 0) | (lib.clingo_backend_type_reify_steps if st else 0)
        expect(rec(x, C + "register_backend", ok=ok), ["CTL", bits, s, b], lambda: ctl.register_backend([BackendType.Aspif, BackendType.Smodels, BackendType.Reify][t], s, b, sc_, st))
    elif c == 14:
        g = rec(x, C + "get_enable_cleanup", direct=b)
        x.check_same(ctl.enable_cleanup, b, "enable cleanup")
        expect(rec(x, C + "set_enable_cleanup", ok=ok), ["CTL", b], lambda: setattr(ctl, "enable_cleanup", b))
    elif c == 15:
        g = rec(x, C + "get_enable_enumeration_assumption", direct=b)
        x.check_same(ctl.enable_enumeration_assumption, b, "enumeration assumption")
        expect(rec(x, C + "set_enable_enumeration_assumption", ok=ok), ["CTL", b], lambda: setattr(ctl, "enable_enumeration_assumption", b))
    elif c == 16:
        rec(x, C + "is_conflicting", direct=b)
        x.check_same(ctl.is_conflicting, b, "is conflicting")
    elif c == 17:
        expect(rec(x, "clingo_model_contains", out=b, ok=ok), ["MOD", A._rep], lambda: mod.contains(A), res=b)
    elif c == 18:
        expect(rec(x, "clingo_model_extend", ok=ok), ["MOD", [A._rep, B._rep]], lambda: mod.extend([A, B]), lambda g: [g[0], arr(g, 1)])
    elif c == 19:
        n = num("n")
        expect(rec(x, "clingo_model_is_true", out=b, ok=ok), ["MOD", n], lambda: mod.is_true(n), res=b)
    elif c == 20:
        n, t = num("n"), x.pick("t", 3)
        v = [lib.clingo_consequence_true, lib.clingo_consequence_false, lib.clingo_consequence_unknown][t]
        expect(rec(x, "clingo_model_is_consequence", out=v, ok=ok), ["MOD", n], lambda: mod.is_consequence(n), val=lambda r: x.check(r is [True, False, None][t], "consequence"))
    elif c == 21:
        fl = [x.bool("f%d" % i) for i in range(5)]
        names = ("atoms", "terms", "shown", "theory", "complement")
        want = sum(getattr(lib, "clingo_show_type_" + k) for k, f in zip(names, fl) if f)
        syms = [("num", num("n")), ("fun", "f", (), True)][: x.pick("ns", 3)]
        g = []

        def size(rep, show, p):
            g.append(show)
            p[0] = len(syms)
            return True

        def get(rep, show, p, n):
            g.append(show)
            x.check(n == len(syms), "size")
            for i, y in enumerate(syms):
                p[i] = y
            return True if ok else lib.fail("clingo_error_runtime", "failed")
        lib.on("clingo_model_symbols_size", size)
        lib.on("clingo_model_symbols", get)
        kind, r = outcome(lambda: [y._rep for y in mod.symbols(**{k: f for k, f in zip(names, fl) if f})])
        x.check_same(g, [want, want], "kinds of symbols")
        x.check(kind == ("ok" if ok else "runtime"), "failures are raised")
        if ok:
            x.check_same(r, syms, "symbols")
    elif c in (22, 23):
        vals = [x.int("v%d" % i, -2**63, 2**63 - 1) if c == 22 else num("v%d" % i) for i in range(x.pick("nv", 3))]
        rec(x, "clingo_model_cost_size", out=len(vals))

        def get(rep, p, n):
            x.check(n == len(vals), "size")
            for i, y in enumerate(vals):
                p[i] = y
            return True if ok else lib.fail("clingo_error_runtime", "failed")
        lib.on("clingo_model_cost" if c == 22 else "clingo_model_priority", get)
        kind, r = outcome(lambda: mod.cost if c == 22 else mod.priority)
        x.check(kind == ("ok" if ok else "runtime"), "failures are raised")
        if ok:
            x.check_same(r, vals, "costs and priorities")
    elif c == 24:
        k = x.pick("which", 4)
        n = x.int("n", 0, I32)
        t = x.pick("t", 3)
        name = ["number", "optimality_proven", "thread_id", "type"][k]
        tv = [(lib.clingo_model_type_stable_model, ModelType.StableModel), (lib.clingo_model_type_brave_consequences, ModelType.BraveConsequences), (lib.clingo_model_type_cautious_consequences, ModelType.CautiousConsequences)][t]
        v = [n, b, n, tv[0]][k]
        expect(rec(x, "clingo_model_" + name, out=v, ok=ok), ["MOD"], lambda: getattr(mod, name), val=lambda r: x.check(r is tv[1], "type") if k == 3 else x.check_same(r, v, "value"))
    elif c == 25:
        user, want = literals(x, 2)
        expect(rec(x, "clingo_solve_control_add_clause", ok=ok), ["CTX", want], lambda: sc.add_clause(user), lambda g: [g[0], arr(g, 1)])
    elif c == 26:
        user, want = literals(x, 2)
        expect(rec(x, "clingo_solve_control_add_clause", ok=ok), ["CTX", [-l for l in want]], lambda: sc.add_nogood(user), lambda g: [g[0], arr(g, 1)])
    elif c == 27:
        # iterating models
        n = x.pick("models", 3)
        log = []
        lib.on("clingo_solve_handle_resume", lambda h: log.append("resume") or True)

        def model(h, p):
            log.append("model")
            i = sum(1 for y in log if y == "model")
            p[0] = "M%d" % i if i <= n else fk.NULL
            return True
        lib.on("clingo_solve_handle_model", model)
        lib.on("clingo_solve_handle_close", lambda h: log.append("close") or True)
        with SolveHandle("H", None) as h:
            x.check([m._rep for m in h] == ["M%d" % (i + 1) for i in range(n)], "models")
        x.check(log == ["resume", "model"] * (n + 1) + ["close"], "order of calls")
    elif c == 28:
        n = [num("n%d" % i) for i in range(x.pick("nn", 3))]
        h = SolveHandle("H", None)
        t = x.pick("t", 2)
        lib.on("clingo_solve_handle_core", lambda h, p, k: p.__setitem__(0, fk.Mem(list(n))) or k.__setitem__(0, len(n)) or True)
        x.check_same(h.core(), n, "core")
        lib.on("clingo_solve_handle_last", lambda h, p: p.__setitem__(0, "L" if t else fk.NULL) or True)
        l = h.last()
        x.check((l is None) == (t == 0) and (l is None or l._rep == "L"), "last model")
        for k in ("cancel", "resume"):
            expect(rec(x, "clingo_solve_handle_" + k, ok=ok), ["H"], getattr(h, k))
    else:
        h = SolveHandle("H", None)
        g = []
        lib.on("clingo_solve_handle_wait", lambda h, t, p: g.append(t) or p.__setitem__(0, b))
        t = x.int("timeout", 0, 10)
        x.check_same([h.wait(), h.wait(t)], [b, b], "waiting")
        x.check(g[0] < 0, "waiting without limit")
        x.check_same(g[1], t, "waiting with limit")
    x.reach("end")


def main(x):
    [solving, result, events, grounding, simple][x.param("case")](x)
