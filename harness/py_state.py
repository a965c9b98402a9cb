# Python views of symbols, symbolic atoms, theory atoms, configurations and statistics mirror the library
from clingo.configuration import Configuration
from clingo.statistics import StatisticsArray, StatisticsMap, _mutable_statistics, _statistics
from clingo.symbol import Function, Infimum, Number, String, Supremum, Symbol, SymbolType, Tuple_, parse_term
from clingo.symbolic_atoms import SymbolicAtom, SymbolicAtoms
from clingo.theory_atoms import TheoryAtom, TheoryElement, TheoryTerm, TheoryTermType

I32 = 2**31


def setp(f):
    def g(*a):
        try:
            r = f(*a[:-1])
        except (LookupError, TypeError):
            return lib.fail("clingo_error_runtime", "bad access")
        a[-1][0] = r
        return True
    return g


class Tree:
    """statistics of the library: a value, an array or a map"""

    def __init__(self, x, depth, tag="t"):
        self.nodes = []
        self.x = x
        V, A, M = lib.clingo_statistics_type_value, lib.clingo_statistics_type_array, lib.clingo_statistics_type_map
        self.V, self.A, self.M = V, A, M
        for n, f in dict(root=lambda s: 0, type=lambda s, k: self.nodes[k][0], value_get=lambda s, k: self.get(k, V), array_size=lambda s, k: len(self.get(k, A)),
                         array_at=lambda s, k, i: self.item(k, i), array_push=lambda s, k, t: self.push(k, t), map_size=lambda s, k: len(self.get(k, M)),
                         map_has_subkey=lambda s, k, n: fk.text(n) in dict(self.get(k, M)), map_subkey_name=lambda s, k, i: fk.cstr(self.get(k, M)[i][0]),
                         map_at=lambda s, k, n: dict(self.get(k, M))[fk.text(n)], map_add_subkey=lambda s, k, n, t: self.add(k, fk.text(n), t)).items():
            lib.on("clingo_statistics_" + n, setp(f))
        lib.on("clingo_statistics_value_set", self.set)

    def get(self, k, t):
        if self.nodes[k][0] != t:
            raise TypeError("wrong type")
        return self.nodes[k][1]

    def item(self, k, i):
        l = self.get(k, self.A)
        if i < 0 or i >= len(l):
            raise IndexError("index")
        return l[int(i)]

    def new(self, t):
        self.nodes.append([t, {self.V: 0, self.A: [], self.M: []}[t] if t != self.V else 0])
        return len(self.nodes) - 1

    def push(self, k, t):
        l = self.get(k, self.A)
        n = self.new(t)
        l.append(n)
        return n

    def add(self, k, name, t):
        m = self.get(k, self.M)
        d = dict(m)
        if name in d:
            if self.nodes[d[name]][0] != t:
                raise TypeError("type")
            return d[name]
        n = self.new(t)
        m.append((name, n))
        return n

    def set(self, s, k, v):
        if isinstance(v, (str, list, dict)) or v is None:
            raise TypeError("must be real number")
        if self.nodes[k][0] != self.V:
            return lib.fail("clingo_error_runtime", "bad access")
        self.nodes[k][1] = v
        return True

    def build(self, v):
        k = self.new(self.M if isinstance(v, dict) else self.A if isinstance(v, list) else self.V)
        if isinstance(v, dict):
            self.nodes[k][1] = [(n, self.build(y)) for n, y in v.items()]
        elif isinstance(v, list):
            self.nodes[k][1] = [self.build(y) for y in v]
        else:
            self.nodes[k][1] = v
        return k

    def read(self, k):
        t, v = self.nodes[k]
        if t == self.V:
            return v
        return [self.read(y) for y in v] if t == self.A else {n: self.read(y) for n, y in v}


def value(x, tag, depth):
    """a value, a list or a dictionary"""
    k = x.pick(tag + "k", 3) if depth else 0
    if k == 0:
        return x.int(tag + "v", -I32, I32 - 1)
    if k == 1:
        return [value(x, "%s%d" % (tag, i), depth - 1) for i in range(x.pick(tag + "n", 3))]
    return {"ab"[i]: value(x, tag + "ab"[i], depth - 1) for i in range(x.pick(tag + "n", 3))}


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
            return False
        return sx.and_(True, *[same(a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return sx.and_(True, *[same(p, q) for p, q in zip(a, b)])
    return a == b


def kind(v):
    return 2 if isinstance(v, dict) else 1 if isinstance(v, list) else 0


def merge(old, new):
    """what updating an existing entry gives, or None if the library refuses to"""
    if callable(new):
        return new(old) if kind(old) == 0 else None
    if kind(old) == 1 and new == {}:
        return old
    if kind(old) != kind(new):
        return None
    if kind(old) == 0:
        return new
    if kind(old) == 1:
        r = []
        for i in range(max(len(old), len(new))):
            m = old[i] if i >= len(new) else new[i] if i >= len(old) else merge(old[i], new[i])
            if m is None:
                return None
            r.append(fresh(m) if i >= len(old) else m)
        return r
    r = dict(old)
    for n, v in new.items():
        m = merge(old[n], v) if n in old else fresh(v)
        if m is None:
            return None
        r[n] = m
    return r


def fresh(v):
    return v(None) if callable(v) else [fresh(y) for y in v] if isinstance(v, list) else {k: fresh(y) for k, y in v.items()} if isinstance(v, dict) else v


def plain(v):
    if isinstance(v, StatisticsArray):
        return [plain(y) for y in v]
    if isinstance(v, StatisticsMap):
        return {k: plain(y) for k, y in v.items()}
    return v


def statistics(x):
    op = x.pick("op", 9)
    depth = x.param("depth", 1)
    old = value(x, "o", depth)
    t = Tree(x, 2)
    if op == 0:
        k = t.build(old)
        x.check(same(_statistics("S", k), old), "statistics as a dictionary")
        return x.reach("end")
    root = {"x": old, "y": [old, 3]}
    k = t.build(root)
    m = _mutable_statistics_at(k)
    new = value(x, "n", depth)
    if x.bool("call"):
        d = x.int("d", 0, 3)
        def new(v):
            return d if v is None else v + d
    exp, err = None, False
    if op == 1:
        x.check(same(plain(m), root), "elements")
        x.check(list(m) == ["x", "y"] and list(m.keys()) == ["x", "y"] and len(m) == 2 and "x" in m and "z" not in m and 3 not in m, "keys")
        x.check(same([plain(v) for v in m.values()], [root["x"], root["y"]]), "values")
        x.check(same([(n, plain(v))[1] for n, v in m.items()], [root["x"], root["y"]]), "items")
        x.fails(KeyError, lambda: m["z"], "missing key")
        x.fails(IndexError, lambda: m["y"][2], "index outside")
        x.fails(IndexError, lambda: m["y"][-1], "index outside")
        return x.reach("end")
    if op == 2:
        f, r = lambda: m.__setitem__("x", new), merge(old, new)
        exp = None if r is None else {"x": r, "y": root["y"]}
    elif op == 3:
        f, exp = lambda: m.__setitem__("z", new), {**root, "z": fresh(new)}
    elif op == 4:
        f, exp = lambda: m["y"].append(new), {"x": old, "y": [old, 3, fresh(new)]}
    elif op == 5:
        f, r = lambda: m["y"].__setitem__(0, new), merge(old, new)
        exp = None if r is None else {"x": old, "y": [r, 3]}
    elif op == 6:
        f, r = lambda: m.update({"x": new, "w": new}), merge(old, new)
        exp = None if r is None else {"x": r, "y": root["y"], "w": fresh(new)}
    elif op == 7:
        def f():
            y = m["y"]
            y += [new, new]
        exp = {"x": old, "y": [old, 3, fresh(new), fresh(new)]}
    else:
        f, r = lambda: m["y"].update([new, 4, new]), merge(old, new)
        exp = None if r is None else {"x": old, "y": [r, 4, fresh(new)]}
    if exp is None:
        try:
            f()
            x.check(False, "assigning values of another type is refused")
        except (RuntimeError, TypeError, AttributeError):
            x.check(True, "assigning values of another type is refused")
        return x.reach("end")
    f()
    x.check(same(t.read(k), exp), "changed as prescribed")
    x.check(same(plain(m), exp), "changes are visible")
    x.reach("end")


def _mutable_statistics_at(k):
    lib.on("clingo_statistics_root", setp(lambda s: k))
    return _mutable_statistics("S")


def configuration(x):
    """a configuration with two options and an array of configurations"""
    T = {n: getattr(lib, "clingo_configuration_type_" + n) for n in ("value", "array", "map")}
    v = {"a": ["", "1", "x y"][x.pick("va", 3)], "b": ["umax,1", ""][x.pick("vb", 2)]}
    assigned = {"a": x.bool("sa"), "b": x.bool("sb")}
    n = x.pick("n", 3)
    inner = ["%d" % i for i in range(n)]
    both = x.bool("both")
    # keys: 0 root, 1 option a, 2 option b, 3 array (also a map with option a), 10+i elements of the array, 20+i their option c
    types = {0: T["map"], 1: T["value"], 2: T["value"], 3: (T["array"] | T["map"]) if both else T["array"]}
    for i in range(n):
        types[10 + i], types[20 + i] = T["map"], T["value"]
    sub = {0: ["a", "b", "arr"], 3: ["a"]}
    at = {(0, "a"): 1, (0, "b"): 2, (0, "arr"): 3, (3, "a"): 1}
    for i in range(n):
        sub[10 + i] = ["c"]
        at[(10 + i, "c")] = 20 + i
    val = {1: v["a"], 2: v["b"], **{20 + i: inner[i] for i in range(n)}}
    isset = {1: assigned["a"], 2: assigned["b"], **{20 + i: True for i in range(n)}}
    log = []

    def get(c, k, p, s):
        for i, y in enumerate(val[k].encode() + b"\0"):
            p[i] = y
        x.check(s == len(val[k]) + 1, "size of text")
        return True
    fns = dict(type=lambda c, k: types[k], map_has_subkey=lambda c, k, s: fk.text(s) in sub[k], map_at=lambda c, k, s: at[(k, fk.text(s))], map_size=lambda c, k: len(sub[k]), map_subkey_name=lambda c, k, i: fk.cstr(sub[k][i]),
               array_size=lambda c, k: n if k == 3 else 1 // 0, array_at=lambda c, k, i: 10 + [*range(n)][int(i)], value_is_assigned=lambda c, k: isset[k], value_get_size=lambda c, k: len(val[k]) + 1, description=lambda c, k: fk.cstr("d%d" % k))
    for f, g in fns.items():
        lib.on("clingo_configuration_" + f, setp(g))
    lib.on("clingo_configuration_value_get", get)
    lib.on("clingo_configuration_value_set", lambda c, k, s: log.append((k, fk.text(s))) or True)
    c = Configuration("C", 0)
    for o in "ab":
        r = getattr(c, o)
        x.check(r == v[o] if assigned[o] else r is None, "value of option")
    x.check(c.keys == ["a", "b", "arr"], "keys")
    x.check(not c.is_array and len(c) == 0, "not an array")
    x.check(c.description("b") == "d2", "description")
    x.fails(AttributeError, lambda: c.zz, "unknown option")
    x.fails(AttributeError, lambda: setattr(c, "zz", 1), "unknown option")
    x.fails(RuntimeError, lambda: c.description("zz"), "unknown option")
    arr = c.arr
    x.check(arr.is_array and len(arr) == n, "array")
    x.check([e.c for e in arr] == inner, "elements of array")
    x.check(arr.keys == (["a"] if both else None), "keys of array")
    i = x.int("i", -2, 3)
    if sx.and_(i >= 0, i < n):
        x.check(arr[i].c == "%d" % int(i), "element of array")
    else:
        x.fails(IndexError, lambda: arr[i], "index outside")
    w = [3, "umin", True][x.pick("w", 3)]
    c.b = w
    x.check(log == [(2, str(w))], "assigning an option")
    x.reach("end")


def symbols(x):
    n, m = x.int("n", -I32, I32 - 1), x.int("m", -I32, I32 - 1)
    s = ["", "a", "f"][x.pick("s", 3)]
    pos = x.pick("pos", 2) == 1

    def term(k, a):
        return [lambda: (Infimum, ("inf",)), lambda: (Supremum, ("sup",)), lambda: (Number(a), ("num", a)), lambda: (String(s), ("str", s)), lambda: (Function(s or "f", [Number(a)], pos), ("fun", s or "f", (("num", a),), pos)),
                lambda: (Tuple_([Number(a), Number(a)]), ("fun", "", (("num", a), ("num", a)), True)), lambda: (Function("g"), ("fun", "g", (), True))][k]()
    k, l = x.pick("k", 7), x.pick("l", 7)
    p, pr = term(k, n)
    q, qr = term(l, m)
    x.check_same(p._rep, pr, "constructed")
    types = [SymbolType.Infimum, SymbolType.Supremum, SymbolType.Number, SymbolType.String] + [SymbolType.Function] * 3
    x.check(p.type is types[k], "type")
    for name, at in (("number", 2), ("string", 3)):
        if k == at:
            x.check(getattr(p, name) == pr[1], name)
        else:
            x.fails(RuntimeError, lambda: getattr(p, name), "no " + name)
    if k >= 4:
        x.check(p.name == pr[1], "name")
        x.check_same([a._rep for a in p.arguments], list(pr[2]), "arguments")
        x.check(p.positive is pr[3] and p.negative is (not pr[3]), "sign")
    else:
        for name in ("name", "arguments", "positive", "negative"):
            x.fails(RuntimeError, lambda: getattr(p, name), "no " + name)
    e, lt = bool(p == q), bool(p < q)
    x.check(e == bool(sx.same(pr, qr)), "equality")
    x.check(bool(p != q) == (not e), "inequality")
    x.check(bool(p <= q) == (lt or e) and bool(p > q) == (not lt and not e) and bool(p >= q) == (not lt), "order")
    if l:
        return x.reach("end")
    name, ar = ["", "f", "g", "a"][x.pick("name", 4)], x.pick("ar", 3)
    sg = x.pick("sign", 2) == 1
    x.check(bool(p.match(name, ar, sg)) == (k >= 4 and pr[1] == name and len(pr[2]) == ar and pr[3] == sg), "match")
    if sg:
        x.check(bool(p.match(name, ar)) == (k >= 4 and pr[1] == name and len(pr[2]) == ar and pr[3]), "match positive")
    x.reach("end")


def atoms(x):
    """symbolic atoms in a domain with gaps"""
    n = x.pick("n", 4)
    lits = [x.int("l%d" % i, 1, I32 - 1) for i in range(n)]
    ext, fact = [x.bool("e%d" % i) for i in range(n)], [x.bool("f%d" % i) for i in range(n)]
    syms = [("fun", "ab"[i % 2], (("num", i),), i != 2) for i in range(n)]
    step = 3
    ids = [i * step for i in range(n)]
    sigs = [("a", 1, True), ("b", 1, True), ("a", 1, False)]
    asked = []

    def begin(rep, sig, p):
        asked.append(None if sig is fk.NULL else sig[0])
        p[0] = first(0, asked[-1])
        return True

    def first(i, sig):
        while i < n and sig is not None and (syms[i][1], len(syms[i][2]), syms[i][3]) != sig:
            i += 1
        return ("it", i, sig)
    on = lib.on
    on("clingo_symbolic_atoms_begin", begin)
    on("clingo_symbolic_atoms_next", lambda rep, it, p: p.__setitem__(0, first(it[1] + 1, it[2])) or True)
    on("clingo_symbolic_atoms_is_valid", setp(lambda rep, it: it[1] < n))
    on("clingo_symbolic_atoms_find", setp(lambda rep, s: ("it", syms.index(s) if s in syms else n, None)))
    on("clingo_symbolic_atoms_size", setp(lambda rep: n))
    on("clingo_symbolic_atoms_symbol", setp(lambda rep, it: syms[it[1]]))
    on("clingo_symbolic_atoms_literal", setp(lambda rep, it: lits[it[1]]))
    on("clingo_symbolic_atoms_is_external", setp(lambda rep, it: ext[it[1]]))
    on("clingo_symbolic_atoms_is_fact", setp(lambda rep, it: fact[it[1]]))
    on("clingo_signature_create", lambda a, b, c, p: p.__setitem__(0, (fk.text(a), b, c)) or True)
    ns = x.pick("ns", 4)
    on("clingo_symbolic_atoms_signatures_size", setp(lambda rep: ns))

    def getsigs(rep, p, k):
        for i in range(ns):
            p[i] = sigs[i]
        return k == ns
    on("clingo_symbolic_atoms_signatures", getsigs)
    on("clingo_signature_name", lambda s: fk.cstr(s[0]))
    on("clingo_signature_arity", lambda s: s[1])
    on("clingo_signature_is_positive", lambda s: s[2])
    A = SymbolicAtoms("ATOMS")
    x.check(len(A) == n, "number of atoms")
    see = lambda a: [a.symbol._rep, a.literal, a.is_external, a.is_fact]
    want = [[syms[i], lits[i], ext[i], fact[i]] for i in range(n)]
    lst = list(A)
    x.check_same([see(a) for a in lst], want, "atoms")
    sig = sigs[x.pick("sig", 3)]
    lst = list(A.by_signature(*sig)) if not sig[2] or x.bool("explicit") else list(A.by_signature(sig[0], sig[1]))
    x.check_same([see(a) for a in lst], [w for w in want if (w[0][1], 1, w[0][3]) == sig], "atoms by signature")
    x.check(all(a.match(*sig) for a in lst), "match")
    i = x.pick("i", 4)
    s = Function("ab"[i % 2], [Number(i)], i != 2)
    a = A[s]
    x.check((s in A) == (i < n) and (a is not None) == (i < n), "contains")
    if a is not None:
        x.check_same(see(a), want[i], "lookup")
    x.check(("x" in A) is False, "contains")
    x.check(A.signatures == sigs[:ns], "signatures")
    x.reach("end")


def theory(x):
    """theory terms, elements and atoms"""
    num = lambda n: x.int(n, 0, I32 - 1)
    t, i, j = num("t"), num("i"), num("j")
    args = [num("a%d" % k) for k in range(x.pick("#a", 3))]
    lits = [x.int("l%d" % k, -I32 + 1, I32 - 1) for k in range(x.pick("#l", 3))]
    T = "clingo_theory_atoms_"

    def arr(l):
        def f(rep, i, p, n):
            x.check_same(i, t, "index")
            p[0], n[0] = fk.Mem(list(l)), len(l)
            return True
        return f

    def one(v):
        def f(rep, i, p):
            x.check_same(i, t, "index")
            p[0] = v
            return True
        return f
    k = x.pick("k", 3)
    if k == 0:
        y = TheoryTerm("R", t)
        types = [("Function", "function"), ("List", "list"), ("Number", "number"), ("Set", "set"), ("Symbol", "symbol"), ("Tuple", "tuple")]
        m = types[x.pick("type", 6)]
        lib.on(T + "term_type", one(getattr(lib, "clingo_theory_term_type_" + m[1])))
        lib.on(T + "term_number", one(i))
        lib.on(T + "term_name", one(fk.cstr("n m")))
        lib.on(T + "term_arguments", arr(args))
        x.check(y.type is TheoryTermType[m[0]], "type")
        x.check_same(y.number, i, "number")
        x.check(y.name == "n m", "name")
        x.check_same([(a._rep, a._idx) for a in y.arguments], [("R", a) for a in args], "arguments")
        z = TheoryTerm("R", j)
    elif k == 1:
        y = TheoryElement("R", t)
        lib.on(T + "element_tuple", arr(args))
        lib.on(T + "element_condition", arr(lits))
        lib.on(T + "element_condition_id", one(j))
        x.check_same([(type(a) is TheoryTerm, a._rep, a._idx) for a in y.terms], [(True, "R", a) for a in args], "terms")
        x.check_same(y.condition, lits, "condition")
        x.check_same(y.condition_id, j, "condition id")
        z = TheoryElement("R", j)
    else:
        y = TheoryAtom("R", t)
        g = x.pick("guard", 2) == 1
        lib.on(T + "atom_term", one(i))
        lib.on(T + "atom_elements", arr(args))
        lib.on(T + "atom_has_guard", one(g))

        def guard(rep, k, p, q):
            x.check_same(k, t, "index")
            p[0], q[0] = fk.cstr("<="), j
            return True
        lib.on(T + "atom_guard", guard)
        lib.on(T + "atom_literal", one(i))
        x.check_same((y.term._rep, y.term._idx), ("R", i), "term")
        x.check_same([(type(a) is TheoryElement, a._rep, a._idx) for a in y.elements], [(True, "R", a) for a in args], "elements")
        x.check((y.guard is not None) == g, "guard")
        if g:
            x.check_same((y.guard[0], y.guard[1]._rep, y.guard[1]._idx), ("<=", "R", j), "guard")
        x.check_same(y.literal, i, "literal")
        z = TheoryAtom("R", j)
    x.check(bool(y == z) == bool(t == j) and bool(y < z) == bool(t < j) and bool(y <= z) == bool(t <= j), "order")
    x.reach("end")


def main(x):
    [statistics, configuration, symbols, atoms, theory][x.param("case")](x)
