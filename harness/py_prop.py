# propagators written in Python: calls reach the library, events reach the propagator, exceptions reach the caller
from clingo.control import Control
from clingo.propagator import Assignment, PropagateControl, PropagateInit, Propagator, PropagatorCheckMode, PropagatorUndoMode

I32 = 2**31


class Custom(Exception):
    pass


def rec(name, out=None, ok=True, direct=None):
    got = []

    def f(*a):
        a = list(a)
        if direct is not None:
            got.append(a)
            return direct
        if out is not None:
            a.pop()[0] = out
        got.append([list(y) if isinstance(y, (list, tuple, fk.Mem)) else y for y in a])
        return True if ok else lib.fail("clingo_error_runtime", "failed")
    lib.on(name, f)
    return got


def outcome(f):
    try:
        return "ok", f()
    except RuntimeError as e:
        return "runtime", e


CHECK = ("Both", "both"), ("Fixpoint", "fixpoint"), ("Off", "none"), ("Total", "total")
UNDO = ("Default", "default"), ("Always", "always")


def methods(x):
    num = lambda n: x.int(n, -I32 + 1, I32 - 1)
    lits = [num("l%d" % i) for i in range(x.pick("#l", 3))]
    ok = x.pick("ok", 2) == 1
    b = x.bool("b")
    l, n, w, p = num("l"), x.int("n", 0, I32), num("w"), num("p")
    init, ctl, ass = PropagateInit("INIT"), PropagateControl("CTL"), Assignment("ASS")
    I, C, A = "clingo_propagate_init_", "clingo_propagate_control_", "clingo_assignment_"
    tag, lock = x.bool("tag"), x.bool("lock")
    wl = [(y, x.int("w%d" % i, -I32, I32 - 1)) for i, y in enumerate(lits)]
    pos = x.pick("positional", 2)
    k = x.pick("call", 40)

    def call(name, want, f, out=None, direct=None, res=None, val=None):
        g = rec(name, out, ok, direct)
        kind, r = outcome(f)
        x.check(len(g) == 1, "called once")
        x.check_same(g[0], want, "arguments %d" % k)
        if direct is not None or ok:
            x.check(kind == "ok", "no error")
            if val is not None:
                val(r)
            elif res is not None:
                x.check_same(r, res, "result %d" % k)
        else:
            x.check(kind == "runtime" and str(r) == "failed", "failures are raised")
    typ = lambda: (lib.clingo_clause_type_volatile if tag else 0) | (lib.clingo_clause_type_static if lock else 0)
    if k == 0:
        call(I + "add_clause", ["INIT", lits, len(lits)], lambda: init.add_clause(lits), out=b, res=b)
    elif k == 1:
        call(I + "add_literal", ["INIT", tag], lambda: init.add_literal(tag), out=l, res=l)
    elif k == 2:
        call(I + "add_literal", ["INIT", True], lambda: init.add_literal(), out=l, res=l)
    elif k == 3:
        call(I + "add_minimize", ["INIT", l, w, p if pos else 0], lambda: init.add_minimize(l, w, p) if pos else init.add_minimize(l, w))
    elif k == 4:
        call(I + ("add_watch_to_thread" if pos else "add_watch"), ["INIT", l] + [n] * pos, lambda: init.add_watch(l, n) if pos else init.add_watch(l))
    elif k == 5:
        call(I + ("remove_watch_from_thread" if pos else "remove_watch"), ["INIT", l] + [n] * pos, lambda: init.remove_watch(l, n) if pos else init.remove_watch(l))
    elif k == 6:
        call(I + "freeze_literal", ["INIT", l], lambda: init.freeze_literal(l))
    elif k == 7:
        t = x.pick("t", 3)
        want = ["INIT", l, wl, len(wl), w] + ([[-1, 0, 1][t], b] if pos else [0, False])
        call(I + "add_weight_constraint", want, lambda: init.add_weight_constraint(l, wl, w, [-1, 0, 1][t], b) if pos else init.add_weight_constraint(l, wl, w), out=tag, res=tag)
    elif k == 8:
        call(I + "propagate", ["INIT"], init.propagate, out=b, res=b)
    elif k == 9:
        call(I + "solver_literal", ["INIT", l], lambda: init.solver_literal(l), out=n, res=n)
    elif k == 10:
        call(I + "assignment", ["INIT"], lambda: init.assignment, direct="A", val=lambda r: x.check(r._rep == "A", "assignment"))
    elif k == 11:
        m = CHECK[x.pick("m", 4)]
        v = getattr(lib, "clingo_propagator_check_mode_" + m[1])
        call(I + "get_check_mode", ["INIT"], lambda: init.check_mode, direct=v, val=lambda r: x.check(r is PropagatorCheckMode[m[0]], "check mode"))
        call(I + "set_check_mode", ["INIT", v], lambda: setattr(init, "check_mode", PropagatorCheckMode[m[0]]), direct=True)
    elif k == 12:
        m = UNDO[x.pick("m", 2)]
        v = getattr(lib, "clingo_propagator_undo_mode_" + m[1])
        call(I + "get_undo_mode", ["INIT"], lambda: init.undo_mode, direct=v, val=lambda r: x.check(r is PropagatorUndoMode[m[0]], "undo mode"))
        call(I + "set_undo_mode", ["INIT", v], lambda: setattr(init, "undo_mode", PropagatorUndoMode[m[0]]), direct=True)
    elif k == 13:
        call(I + "number_of_threads", ["INIT"], lambda: init.number_of_threads, direct=n, res=n)
    elif k == 14:
        call(I + "symbolic_atoms", ["INIT"], lambda: init.symbolic_atoms, out="ATOMS", val=lambda r: x.check(r._rep == "ATOMS", "atoms"))
    elif k == 15:
        rec("clingo_theory_atoms_size", out=3)
        call(I + "theory_atoms", ["INIT"], lambda: list(init.theory_atoms), out="TH", val=lambda r: x.check([(a._rep, a._idx) for a in r] == [("TH", i) for i in range(3)], "theory atoms"))
    elif k == 16:
        call(C + "add_clause", ["CTL", lits, len(lits), typ() if pos else 0], lambda: ctl.add_clause(lits, tag, lock) if pos else ctl.add_clause(lits), out=b, res=b)
    elif k == 17:
        call(C + "add_clause", ["CTL", lits, len(lits), typ()], lambda: ctl.add_clause(lits, lock=lock, tag=tag), out=b, res=b)
    elif k == 18:
        call(C + "add_clause", ["CTL", [-y for y in lits], len(lits), typ() if pos else 0], lambda: ctl.add_nogood(lits, tag, lock) if pos else ctl.add_nogood(iter(lits)), out=b, res=b)
    elif k == 19:
        call(C + "add_literal", ["CTL"], ctl.add_literal, out=l, res=l)
    elif k == 20:
        call(C + "add_watch", ["CTL", l], lambda: ctl.add_watch(l))
    elif k == 21:
        call(C + "has_watch", ["CTL", l], lambda: ctl.has_watch(l), direct=b, res=b)
    elif k == 22:
        call(C + "propagate", ["CTL"], ctl.propagate, out=b, res=b)
    elif k == 23:
        call(C + "remove_watch", ["CTL", l], lambda: ctl.remove_watch(l), direct=True)
    elif k == 24:
        call(C + "assignment", ["CTL"], lambda: ctl.assignment, direct="A", val=lambda r: x.check(r._rep == "A", "assignment"))
    elif k == 25:
        call(C + "thread_id", ["CTL"], lambda: ctl.thread_id, direct=n, res=n)
    elif k == 26:
        call(A + "decision", ["ASS", n], lambda: ass.decision(n), out=l, res=l)
    elif k == 27:
        call(A + "has_literal", ["ASS", l], lambda: ass.has_literal(l), direct=b, res=b)
    elif k in (28, 29, 30):
        m = ["is_false", "is_fixed", "is_true"][k - 28]
        call(A + m, ["ASS", l], lambda: getattr(ass, m)(l), out=b, res=b)
    elif k in (31, 32):
        t = x.pick("t", 3)
        v = [lib.clingo_truth_value_free, lib.clingo_truth_value_true, lib.clingo_truth_value_false][t]
        if k == 31:
            call(A + "truth_value", ["ASS", l], lambda: ass.is_free(l), out=v, val=lambda r: x.check(r is (t == 0), "is free"))
        else:
            call(A + "truth_value", ["ASS", l], lambda: ass.value(l), out=v, val=lambda r: x.check(r is [None, True, False][t], "value"))
    elif k == 33:
        call(A + "level", ["ASS", l], lambda: ass.level(l), out=n, res=n)
    elif k in (34, 35):
        m = ["decision_level", "root_level"][k - 34]
        call(A + m, ["ASS"], lambda: getattr(ass, m), direct=n, res=n)
    elif k in (36, 37):
        m = ["has_conflict", "is_total"][k - 36]
        call(A + m, ["ASS"], lambda: getattr(ass, m), direct=b, res=b)
    else:
        m = ["begin", "end"][k - 38]
        call(A + "trail_" + m, ["ASS", n], lambda: getattr(ass.trail, m)(n), out=l, res=l)
    x.reach("end")


def events(x):
    """which methods are registered, and a history of calls of them"""
    lib.on("clingo_control_free", lambda rep: None)
    lib.on("clingo_propagate_control_thread_id", lambda c: (c, "thread"))
    lib.on("clingo_propagate_control_assignment", lambda c: (c, "assignment"))
    names = ("init", "propagate", "undo", "check", "decide")
    chosen = [names[x.pick("e%d" % i, 5)] for i in range(x.param("events", 2))]
    rest = x.pick("rest", 2) == 1
    has = {n: x.bool("has_" + n) if n in chosen else rest for n in names}
    base = x.pick("base", 2)
    log = []
    cur = []

    class P(Propagator if base else object):
        pass

    def mk(n):
        def f(self, *a):
            i, r = cur[-1]
            log.append((i, n, [y._rep if hasattr(y, "_rep") else y for y in a], [type(y) for y in a if hasattr(y, "_rep")]))
            if r:
                raise Custom("e%d" % i)
            return answer
        return f
    answer = x.int("answer", -I32, I32 - 1)
    for n in names:
        if has[n]:
            setattr(P, n, mk(n))
    ctl = Control(fk.NULL)
    reg = []
    lib.on("clingo_control_register_propagator", lambda rep, p, data, seq: reg.append((p[0], data, seq)) or True)
    ctl.register_propagator(P())
    s, data, seq = reg[0]
    x.check(seq is False, "not sequential")
    x.check(list(s._f) == list(names), "order of callbacks")
    for n in names:
        x.check((s._f[n] is not fk.NULL) == bool(has[n]), "exactly the methods of the propagator are registered")
    evs = []
    for i in range(x.param("events", 2)):
        n = chosen[i]
        if not has[n]:
            continue
        evs.append((n, x.pick("r%d" % i, 2), [x.int("c%d%d" % (i, k), -I32, I32 - 1) for k in range(x.pick("#c%d" % i, 3) if n in ("propagate", "undo") else 1)]))
    want, raised = [], []

    def solve(rep, m, a, num, cb, d, ph):
        ph[0] = "H"
        bad = None
        for i, (n, r, c) in enumerate(evs):
            if s._f[n] is fk.NULL:
                return True
            cur.append((i, r))
            f = s._f[n]
            if n == "init":
                ok = f("I%d" % i, data)
                want.append((i, n, ["I%d" % i], [PropagateInit]))
            elif n == "propagate":
                ok = f("C%d" % i, fk.Mem(list(c)), len(c), data)
                want.append((i, n, ["C%d" % i, c], [PropagateControl]))
            elif n == "check":
                ok = f("C%d" % i, data)
                want.append((i, n, ["C%d" % i], [PropagateControl]))
            elif n == "undo":
                f("C%d" % i, fk.Mem(list(c)), len(c), data)
                want.append((i, n, [("C%d" % i, "thread"), ("C%d" % i, "assignment"), c], [Assignment]))
                ok = not r
            else:
                out = fk.Mem([0])
                ok = f("T%d" % i, "A%d" % i, c[0], data, out)
                want.append((i, n, ["T%d" % i, "A%d" % i, c[0]], [Assignment]))
                if not r:
                    x.check_same(out[0], answer, "decision")
            x.check(bool(ok) == (not r), "callback succeeds unless it raises")
            if r:
                raised.append("e%d" % i)
                return False
        return True
    lib.on("clingo_control_solve", solve)
    lib.on("clingo_solve_handle_get", lambda h, p: p.__setitem__(0, 1) or True)
    lib.on("clingo_solve_handle_close", lambda h: True)
    got = None
    try:
        ctl.solve()
    except Custom as e:
        got = str(e)
    x.check([(a, b, c) for a, b, _, c in log] == [(a, b, c) for a, b, _, c in want], "methods called")
    x.check_same([c for _, _, c, _ in log], [c for _, _, c, _ in want], "arguments of methods")
    x.check(got == (raised[0] if raised else None), "exceptions of methods are raised")
    x.reach("end")


def main(x):
    [methods, events][x.param("case")](x)
