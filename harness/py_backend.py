# statements added through a backend reach the library as given, and statements of the library reach an observer as given
import inspect
from clingo.backend import Backend, HeuristicType, Observer, TheorySequenceType
from clingo.control import Control
from clingo.core import TruthValue
from clingo.symbol import Function, Number
from clingo._internal import _Error

I32 = 2**31


def lits(x, n, m=None, lo=-I32 + 1):
    return [x.int("%s%d" % (n, i), lo, I32 - 1) for i in range(x.pick("#" + n, (m or x.param("len", 2)) + 1))]


def atoms(x, n):
    return lits(x, n, lo=0)


def wlits(x, n):
    return list(zip(lits(x, n), [x.int("w%d" % i, -I32, I32 - 1) for i in range(3)]))


def arr(l):
    return fk.Mem(list(l))


def warr(l):
    return fk.Mem([fk.Struct(("literal", "weight"), v) for v in l])


def calls(x):
    """name of the method, arguments, name of the library function, what it should receive"""
    num = lambda n: x.int(n, -I32, I32 - 1)
    idt = lambda n: x.int(n, 0, I32 - 1)
    c = x.pick("call", 17)
    s = ["", "a", "ab c"][x.pick("str", 3)] if c in (10, 11, 16) else ""
    ch = x.bool("choice") if c in (8, 9) else None
    if c == 0:
        u, v, l = num("u"), num("v"), lits(x, "l")
        return "add_acyc_edge", (u, v, l), "acyc_edge", (u, v, l, len(l))
    if c == 1:
        l = lits(x, "l")
        return "add_assume", (l,), "assume", (l, len(l))
    if c == 2:
        n = num("n")
        return "add_atom", ((Function("f", [Number(n)]),) if x.bool("sym") else ()), "add_atom", (n,)
    if c == 3:
        t = list(TruthValue)[x.pick("t", 4)]
        a = idt("a")
        if x.bool("default"):
            return "add_external", (a,), "external", (a, lib.clingo_external_type_false)
        return "add_external", (a, t), "external", (a, {"False_": lib.clingo_external_type_false, "Free": lib.clingo_external_type_free, "True_": lib.clingo_external_type_true, "Release": lib.clingo_external_type_release}[t.name])
    if c == 4:
        m = x.pick("t", 6)
        k = [("Factor", "factor"), ("False_", "false"), ("Init", "init"), ("Level", "level"), ("Sign", "sign"), ("True_", "true")][m]
        a, b, p, l = idt("a"), num("b"), idt("p"), lits(x, "l")
        return "add_heuristic", (a, HeuristicType[k[0]], b, p, l), "heuristic", (a, getattr(lib, "clingo_heuristic_type_" + k[1]), b, p, l, len(l))
    if c == 5:
        p, l = num("p"), wlits(x, "l")
        return "add_minimize", (p, l), "minimize", (p, l, len(l))
    if c == 6:
        l = atoms(x, "l")
        return "add_project", (l,), "project", (l, len(l))
    if c == 7:
        h = atoms(x, "h")
        return "add_rule", (h,), "rule", (False, h, len(h), [], 0)
    if c == 8:
        h, b = atoms(x, "h"), lits(x, "l")
        return "add_rule", (h, b, ch), "rule", (ch, h, len(h), b, len(b))
    if c == 9:
        h, b, k = atoms(x, "h"), wlits(x, "l"), num("k")
        if x.bool("default"):
            return "add_weight_rule", (h, k, b), "weight_rule", (False, h, len(h), k, b, len(b))
        return "add_weight_rule", (h, k, b, ch), "weight_rule", (ch, h, len(h), k, b, len(b))
    if c == 10:
        if x.bool("number"):
            n = num("n")
            return "add_theory_term_number", (n,), "theory_term_number", (n,)
        return "add_theory_term_string", (s,), "theory_term_string", (s,)
    if c == 11:
        l = atoms(x, "l")
        return "add_theory_term_function", (s, l), "theory_term_function", (s, l, len(l))
    if c == 12:
        l, t = atoms(x, "l"), x.pick("t", 3)
        k = [("Tuple", "tuple"), ("List", "list"), ("Set", "set")][t]
        return "add_theory_term_sequence", (TheorySequenceType[k[0]], l), "theory_term_sequence", (getattr(lib, "clingo_theory_sequence_type_" + k[1]), l, len(l))
    if c == 13:
        n = num("n")
        return "add_theory_term_symbol", (Number(n),), "theory_term_symbol", (("num", n),)
    if c == 14:
        t, l = atoms(x, "t"), lits(x, "l")
        return "add_theory_element", (t, l), "theory_element", (t, len(t), l, len(l))
    t, l, r = idt("t"), atoms(x, "l"), idt("r")
    a = None if x.bool("fresh") else x.int("a", 0, I32 - 1)
    want = 2**32 - 1 if a is None else a
    if c == 15:
        return "add_theory_atom", (t, l) + (() if a is None else (a,)), "theory_atom", (want, t, l, len(l))
    return "add_theory_atom_with_guard", (t, l, s, r) + (() if a is None else (a,)), "theory_atom_with_guard", (want, t, l, len(l), s, r)


def observed(x):
    """name of the callback, what the library passes, what the observer should receive"""
    num = lambda n: x.int(n, -I32, I32 - 1)
    idt = lambda n: x.int(n, 0, I32 - 1)
    c = x.pick("event", 19)
    if c == 0:
        b = x.bool("b")
        return "init_program", (b,), (b,)
    if c == 1:
        return "begin_step", (), ()
    if c == 2:
        return "end_step", (), ()
    if c == 3:
        b, h, l = x.bool("b"), atoms(x, "h"), lits(x, "l")
        return "rule", (b, arr(h), len(h), arr(l), len(l)), (b, h, l)
    if c == 4:
        b, h, l, k = x.bool("b"), atoms(x, "h"), wlits(x, "l"), num("k")
        return "weight_rule", (b, arr(h), len(h), k, warr(l), len(l)), (b, h, k, l)
    if c == 5:
        p, l = num("p"), wlits(x, "l")
        return "minimize", (p, warr(l), len(l)), (p, l)
    if c == 6:
        l = atoms(x, "l")
        return "project", (arr(l), len(l)), (l,)
    if c == 7:
        n, a = num("n"), idt("a")
        return "output_atom", (("num", n), a), (Number(n), a)
    if c == 8:
        n, l = num("n"), lits(x, "l")
        return "output_term", (("num", n), arr(l), len(l)), (Number(n), l)
    if c == 9:
        a, t = idt("a"), x.pick("t", 4)
        k = [("False_", "false"), ("Free", "free"), ("True_", "true"), ("Release", "release")][t]
        return "external", (a, getattr(lib, "clingo_external_type_" + k[1])), (a, TruthValue[k[0]])
    if c == 10:
        l = lits(x, "l")
        return "assume", (arr(l), len(l)), (l,)
    if c == 11:
        m = x.pick("t", 6)
        k = [("Factor", "factor"), ("False_", "false"), ("Init", "init"), ("Level", "level"), ("Sign", "sign"), ("True_", "true")][m]
        a, b, p, l = idt("a"), num("b"), idt("p"), lits(x, "l")
        return "heuristic", (a, getattr(lib, "clingo_heuristic_type_" + k[1]), b, p, arr(l), len(l)), (a, HeuristicType[k[0]], b, p, l)
    if c == 12:
        u, v, l = num("u"), num("v"), lits(x, "l")
        return "acyc_edge", (u, v, arr(l), len(l)), (u, v, l)
    if c == 13:
        i, n = idt("i"), num("n")
        return "theory_term_number", (i, n), (i, n)
    if c == 14:
        i, s = idt("i"), ["", "a", "b c"][x.pick("str", 3)]
        return "theory_term_string", (i, fk.cstr(s)), (i, s)
    if c == 15:
        i, n, l = idt("i"), num("n"), atoms(x, "l")
        return "theory_term_compound", (i, n, arr(l), len(l)), (i, n, l)
    if c == 16:
        i, t, l = idt("i"), atoms(x, "t"), lits(x, "l")
        return "theory_element", (i, arr(t), len(t), arr(l), len(l)), (i, t, l)
    a, t, l = idt("a"), idt("t"), atoms(x, "l")
    if c == 17:
        return "theory_atom", (a, t, arr(l), len(l)), (a, t, l)
    o, r = idt("o"), idt("r")
    return "theory_atom_with_guard", (a, t, arr(l), len(l), o, r), (a, t, l, o, r)


def plain(v):
    """what the library receives, with pointers to arrays replaced by their elements"""
    if isinstance(v, fk.Str) or isinstance(v, bytes):
        return fk.text(v)
    if isinstance(v, (list, tuple)) and not (v and v[0] in ("num", "fun", "str")):
        return [plain(y) for y in v]
    return v


def main(x):
    if x.param("observe"):
        return observe(x)
    meth, args, fun, want = calls(x)
    got = []
    ok = x.bool("succeeds")
    ret = x.int("ret", 0, I32 - 1)
    outs = fun.startswith("theory") or fun == "add_atom"

    def f(rep, *a):
        x.check(rep == "BACKEND", "backend")
        got.append(a)
        if not ok:
            return lib.fail("clingo_error_runtime", "some message")
        if outs:
            a[-1][0] = ret
        return True
    lib.on("clingo_backend_" + fun, f)
    state = []
    lib.on("clingo_backend_begin", lambda rep: state.append("begin") or True)
    lib.on("clingo_backend_end", lambda rep: state.append("end") or True)
    b = Backend("BACKEND", _Error())
    r = None
    try:
        with b as bb:
            x.check(state == ["begin"], "begun")
            r = getattr(bb, meth)(*args)
        x.check(ok, "reports failure")
    except RuntimeError as e:
        x.check(sx.not_(ok) if not isinstance(ok, bool) else not ok, "no failure")
        x.check(str(e) == "some message", "message")
    x.check(state == ["begin", "end"], "ended")
    x.check(len(got) == 1, "called once")
    g = got[0][:-1] if outs else got[0]
    if fun == "add_atom":
        x.check((g[0][0] == ("fun", "f", (("num", want[0]),), True)) if args else g[0] is fk.NULL, "atom")
    elif fun == "theory_term_symbol":
        x.check(g[0] == want[0], "symbol")
    else:
        x.observe(meth, plain(list(g)))
        x.check_same(plain(list(g)), plain(list(want)), meth)
    if ok and outs:
        x.check(r == ret, "result")
    x.reach("end")


def observe(x):
    name, args, want = observed(x)
    got = []

    class Obs(Observer):
        pass

    def method(self, *a):
        got.append(a)
    setattr(Obs, name, method)
    reg = []
    lib.on("clingo_control_register_observer", lambda rep, o, rp, d: reg.append((o[0], rp, d)) or True)
    lib.on("clingo_control_free", lambda rep: None)
    repl = x.bool("replace")
    ctl = Control.__new__(Control)
    ctl.__init__(fk.NULL)
    ctl.register_observer(Obs(), repl)
    o, rp, data = reg[0]
    x.check_same(rp, repl, "replace")
    for k, cb in o._f.items():
        x.check((cb is not fk.NULL) == (k == name), "only overridden callbacks are registered")
    cb = o._f[name]
    x.check(cb(*args, data) is True, "succeeds")
    x.check(len(got) == 1, "called once")
    for a, b in zip(got[0], want):
        if hasattr(a, "_rep"):
            x.check(a._rep == b._rep, "symbol")
        elif hasattr(b, "name"):
            x.check(a is b, "enum")
        else:
            x.check_same(a, b, name)
    x.check(len(got[0]) == len(want), "number of arguments")
    x.reach("end")
