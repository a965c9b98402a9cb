# slices of sequences behave like slices of lists
from clingo.util import Slice, SlicedSequence
from clingo.propagator import Assignment, Trail
from clingo.solving import _SymbolSequence
from clingo.symbol import Number


def backing(kind, vals):
    """a sequence of the package over the given integers, and how to read one of its elements"""
    if kind == 0:
        return list(vals), lambda v: v
    size = len(vals)

    def setp(f):
        def g(*a):
            a[-1][0] = f(*a[1:-1])
            return True
        return g

    def at(i):
        assert sx.and_(i >= 0, i < size), "index outside of the array"
        return vals[int(i)]
    if kind == 1:
        lib.on("clingo_assignment_trail_size", setp(lambda: size))
        lib.on("clingo_assignment_trail_at", setp(at))
        return Trail(None), lambda v: v
    if kind == 2:
        lib.on("clingo_assignment_size", lambda rep: size)
        lib.on("clingo_assignment_at", setp(at))
        return Assignment(None), lambda v: v
    return _SymbolSequence(fk.Mem([("num", v) for v in vals])), lambda v: v.number


def main(x):
    n, two, kind = x.param("n", 3), x.param("two", 0), x.param("kind", 0)
    vals = [x.int("v%d" % i, -5, 5) for i in range(n)]
    L = n + (1 if two < 2 else x.param("over", 0))
    steps = [None, 1, -1, 2, -2, 3]

    def slc(p):
        st = steps[x.param("step") if p == "s" and x.param("step", -1) >= 0 else x.pick(p + "step", x.param("steps", 5))]
        return slice(x.opt(p + "a", -L, L), x.opt(p + "b", -L, L), st)
    seq, num = backing(kind, vals)
    ref = list(vals)
    v = seq
    if two >= 1:
        a = slc("s")
        ref = ref[a]
        v = SlicedSequence(seq, Slice(a)) if kind == 0 else seq[a]
    if two == 2:
        b = slc("t")
        ref, v = ref[b], v[b]
    x.observe("list", ref)
    x.check(len(v) == len(ref), "length")
    x.check_same([num(y) for y in v], ref, "elements")
    if two == 2:
        x.check_same([num(v[k - len(ref)]) for k in range(len(ref))], ref, "index")
        x.check_same([num(y) for y in reversed(v)], list(reversed(ref)), "reversed")
        x.fails(IndexError, lambda: v[len(ref)], "outside")
        x.reach("end")
        return
    i = x.int("i", -len(ref) - 1, len(ref))
    if sx.and_(i >= -len(ref), i < len(ref)):
        x.check(num(v[i]) == ref[int(i)], "index")
    else:
        x.fails(IndexError, lambda: v[i], "outside")
    if kind == 0 and two:
        w = x.int("w", -5, 5)
        seq.append(w)
        ref = seq[a]
        x.check_same([num(y) for y in v], ref, "follows the sequence")
    x.reach("end")
