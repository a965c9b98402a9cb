# sequences of AST nodes and of strings, and slices of them, change like lists
import clingo.ast as A
from clingo.symbol import Number

LOC = A.Location(A.Position("f", 1, 1), A.Position("f", 1, 2))


def main(x):
    n, kind, view = x.param("n", 3), x.param("kind", 0), x.param("view", 0)
    # strings are told apart by their position
    vals = [x.int("v%d" % i, 0, 3) if kind == 0 else i % 4 for i in range(n)]
    w = x.int("w", 0, 3) if kind == 0 else 3
    names = ["a", "bc", "", "d e"]
    if kind == 0:
        def mk(v):
            return A.SymbolicTerm(LOC, Number(v))

        def num(e):
            return e.symbol.number
        node = A.Function(LOC, "f", [mk(v) for v in vals], 0)
        seq = node.arguments

        def now():
            return [num(e) for e in node.arguments]
    else:
        def mk(v):
            return names[v]

        def num(e):
            return names.index(e)
        node = A.TheoryGuardDefinition([mk(v) for v in vals], "t")
        seq = node.operators

        def now():
            return [num(e) for e in node.operators]
    x.check_same(now(), vals, "created")
    ref = list(vals)
    lo, hi = 0, n
    tgt = seq
    idx = list(range(n))
    if view:
        L = n + x.param("over", 0)
        s = slice(x.opt("a", -L, L), x.opt("b", -L, L), x.int("step", 1, 2))
        idx = idx[s]
        tgt = seq[s]
        x.check_same([num(e) for e in tgt], [ref[k] for k in idx], "slice")
    m = len(idx)
    op = 3 * x.pick("op", 4) + x.param("op", 0)
    if op > 10:
        return
    x.observe("op", op)
    ops = x.int("i", -m - 2, m + 2)
    inside = sx.and_(ops >= -m, ops < m)

    def outside(f):
        x.fails(IndexError, f, "index error")
        x.check_same(now(), vals, "unchanged")
        x.reach("outside")

    def pos(i):
        """where an element inserted at position i of the slice goes"""
        return idx[i] if i < m else idx[-1] + 1 if m else min(max(len(range(n)[: range(n)[s].start]), 0), n) if view else n
    if op == 0:
        if not inside:
            return outside(lambda: tgt.__setitem__(ops, mk(w)))
        tgt[ops] = mk(w)
        ref[idx[int(ops)]] = w
    elif op == 1:
        if not inside:
            return outside(lambda: tgt.__delitem__(ops))
        del tgt[ops]
        del ref[idx[int(ops)]]
    elif op == 2:
        tgt.insert(ops, mk(w))
        i = int(ops)
        ref.insert(pos(min(max(i + m, 0) if i < 0 else i, m)), w)
    elif op == 3:
        tgt.append(mk(w))
        ref.insert(pos(m), w)
    elif op == 4:
        if not inside:
            return outside(lambda: tgt.pop(ops))
        x.check(num(tgt.pop(ops)) == ref.pop(idx[int(ops)]), "popped")
    elif op == 5:
        if view:
            return
        tgt.extend([mk(w), mk(w)])
        ref.extend([w, w])
    elif op == 6:
        tgt.reverse()
        for k, v in zip(idx, [ref[k] for k in reversed(idx)]):
            ref[k] = v
    elif op == 7:
        if view:
            return
        tgt.clear()
        ref.clear()
    elif op == 8:
        # assigning (part of) the sequence to its own attribute
        if kind == 0:
            node.arguments = tgt
        else:
            node.operators = tgt
        ref = [ref[k] for k in idx]
    elif op == 9:
        new = [mk(w)] * x.pick("k", 3)
        if kind == 0:
            node.arguments = tuple(new)
        else:
            node.operators = tuple(new)
        ref = [w] * len(new)
    else:
        x.check(tgt.index(mk(w)) == [ref[k] for k in idx].index(w), "found") if sx.or_(False, *[ref[k] == w for k in idx]) else x.fails(ValueError, lambda: tgt.index(mk(w)), "not found")
    x.check_same(now(), ref, "changed like a list")
    x.reach("end")
