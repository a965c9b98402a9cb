# abstract syntax trees in Python: constructors, attributes, updates, copies, transformers, parsing, unpooling
import copy
import gc
import inspect
import clingo.ast as A
from clingo.symbol import Function, Number

I32 = 2**31


def loc(x, n):
    return A.Location(A.Position("f", x.int(n + "l", 1, I32), x.int(n + "c", 1, I32)), A.Position("g h", x.int(n + "m", 1, I32), x.int(n + "d", 1, I32)))


FIX = A.Location(A.Position("f", 1, 1), A.Position("f", 1, 2))


def leaf(i):
    return A.SymbolicTerm(FIX, Number(i))


def value(x, n, t, lists):
    """a value of an attribute of type t"""
    if t == "number":
        return x.int(n, -I32, I32 - 1)
    if t == "symbol":
        return Function("f", [Number(x.int(n, -I32, I32 - 1))])
    if t == "location":
        return loc(x, n)
    if t == "string":
        return ["", "a b"][x.pick(n, 2)]
    if t == "ast":
        return leaf(x.int(n, 0, 9))
    if t == "optional_ast":
        return leaf(x.int(n, 0, 9)) if x.bool(n + "?") else None
    k = x.pick("#" + n, lists)
    if t == "string_array":
        return ["s%d" % i for i in range(k)]
    return [leaf(x.int("%s%d" % (n, i), 0, 9)) for i in range(k)]


def plain(v):
    if isinstance(v, A.AST):
        return ("ast", v.symbol._rep) if v.ast_type is A.ASTType.SymbolicTerm else ("ast", id(v._rep))
    if isinstance(v, (A.ASTSequence, A.StrSequence, list, tuple)) and not isinstance(v, A.Location):
        return [plain(y) for y in v]
    if hasattr(v, "_rep"):
        return ("sym", v._rep)
    if isinstance(v, A.Location):
        return [v.begin.filename, v.begin.line, v.begin.column, v.end.filename, v.end.line, v.end.column]
    return v


def camel(s):
    return "".join(w.capitalize() for w in s.split("_"))


def nodes(x):
    """every constructor"""
    names = fk.asts.names
    part, parts = x.param("part", 0), x.param("parts", 1)
    types = [t for i, t in enumerate(sorted(fk.asts.cons)) if i % parts == part]
    t = types[x.pick("type", len(types))]
    cname, attrs = fk.asts.cons[t]
    keys = [(names[a], k) for a, k in attrs]
    cons = getattr(A, camel(cname))
    x.check(A.ASTType[camel(cname)].value == t, "types of nodes")
    x.check([p for p in inspect.signature(cons).parameters] == [k for k, _ in keys], "parameters of constructors")
    vals = [value(x, k, ty, 3 if i < 3 else 2) for i, (k, ty) in enumerate(keys)]
    n = cons(*vals)
    x.check(n.ast_type is A.ASTType[camel(cname)], "type")
    x.check(n.keys() == [k for k, _ in keys], "keys")
    x.check(n.child_keys == [k for k, ty in keys if ty in ("ast", "optional_ast", "ast_array")], "keys of children")
    want = [plain(v) for v in vals]
    see = lambda m: [plain(getattr(m, k)) for k, _ in keys]
    x.check_same(see(n), want, "attributes")
    x.check_same([plain(v) for v in n.values()], want, "values")
    x.check([k for k, _ in n.items()] == [k for k, _ in keys], "items")
    x.check_same([plain(v) for _, v in n.items()], want, "items")
    x.fails(AttributeError, lambda: n.no_such_attribute, "unknown attributes")
    x.fails(AttributeError, lambda: setattr(n, "no_such_attribute", 1), "unknown attributes")
    other = [a for a in names if a not in dict(keys)][0]
    x.fails(AttributeError, lambda: getattr(n, other), "attributes of other nodes")
    x.fails(AttributeError, lambda: setattr(n, other, 1), "attributes of other nodes")
    op = x.pick("op", 4)
    i = x.pick("i", len(keys))
    k, ty = keys[i]
    new = value(x, "new", ty, 3)
    changed = want[:i] + [plain(new)] + want[i + 1:]
    if op == 0:
        m = n.update(**{k: new})
        x.check_same(see(m), changed, "updated")
        x.check_same(see(n), want, "updating changes a copy")
        x.check(n.update() is n, "updating nothing")
    elif op == 1:
        setattr(n, k, tuple(new) if isinstance(new, list) else new)
        x.check_same(see(n), changed, "assigned")
    else:
        m = copy.copy(n) if op == 2 else copy.deepcopy(n)
        x.check_same(see(m), want, "copied")
        x.check(m == n and hash(m) == hash(n) if not x.param("sym", 1) else True, "copies are equal")
        setattr(n, k, new)
        x.check_same(see(m), want, "changes to the original")
        for (kk, tt), v in zip(keys, vals):
            if tt in ("ast", "optional_ast") and v is not None and kk != k:
                getattr(n, kk).symbol = Number(77)
                x.check_same(plain(getattr(m, kk)), ("ast", ("num", 77)) if op == 2 else plain_of(want, keys, kk), "children of copies")
    x.reach("end")


def plain_of(want, keys, kk):
    return want[[k for k, _ in keys].index(kk)]


def term(x, n, depth):
    """terms as nested tuples"""
    k = x.pick(n + "k", 4 if depth else 2)
    if k == 0:
        return ("s", x.int(n + "v", 0, 3))
    if k == 1:
        return ("v", "X")
    if k == 2:
        return ("f", [term(x, n + str(i), depth - 1) for i in range(x.pick(n + "n", 3))])
    return ("u", term(x, n + "a", depth - 1))


def build(t):
    if t[0] == "s":
        return A.SymbolicTerm(FIX, Number(t[1]))
    if t[0] == "v":
        return A.Variable(FIX, t[1])
    if t[0] == "f":
        return A.Function(FIX, "f", [build(a) for a in t[1]], 0)
    return A.UnaryOperation(FIX, A.UnaryOperator.Minus, build(t[1]))


def read(n):
    if n.ast_type is A.ASTType.SymbolicTerm:
        return ("s", n.symbol.number)
    if n.ast_type is A.ASTType.Variable:
        return ("v", n.name)
    if n.ast_type is A.ASTType.Function:
        return ("f", [read(a) for a in n.arguments])
    return ("u", read(n.argument))


def subst(t, r, d):
    if t[0] == "v" and r == 1:
        return ("s", d)
    if t[0] == "s" and r == 2:
        return ("s", t[1] + d)
    if t[0] == "u" and r == 3:
        return subst(t[1], r, d)
    if t[0] == "f":
        return ("f", [subst(a, r, d) for a in t[1]])
    if t[0] == "u":
        return ("u", subst(t[1], r, d))
    return t


def transformer(x):
    t = term(x, "t", 2)
    r, d = x.pick("rule", 4), x.int("d", 0, 3)
    log = []

    class T(A.Transformer):
        pass

    def var(self, n, e, tag):
        x.check(e == "extra" and tag == 5, "further arguments")
        return A.SymbolicTerm(n.location, Number(d))

    def sym(self, n, e, tag):
        x.check(e == "extra" and tag == 5, "further arguments")
        return n.update(symbol=Number(n.symbol.number + d))

    def una(self, n, e, tag):
        return self(n.argument, e, tag=tag)
    if r:
        setattr(T, ["", "visit_Variable", "visit_SymbolicTerm", "visit_UnaryOperation"][r], [None, var, sym, una][r])
    n = build(t)
    m = T()(n, "extra", tag=5)
    want = subst(t, r, d)
    x.check_same(read(m), want, "transformed")
    x.check_same(read(n), t, "the original is unchanged")

    def hits(t):
        return (r == 1 and t[0] == "v") or (r == 2 and t[0] == "s") or (r == 3 and t[0] == "u") or (t[0] == "f" and any([hits(a) for a in t[1]])) or (t[0] == "u" and hits(t[1]))
    x.check((m is n) == (not hits(t)), "unchanged trees are kept")
    x.reach("end")


class Custom(Exception):
    pass


def parsing(x):
    """parsing calls back with every statement, and passes on exceptions"""
    n = x.pick("n", 4)
    bad = x.pick("bad", n + 1)
    fail = x.pick("fail", 3)
    files = x.bool("files")
    names = ["a", "b c"][: x.pick("nf", 3)]
    withctl, withlog = x.bool("ctl"), x.bool("log")
    limit = x.int("limit", 0, 100)
    st = [leaf(i)._rep for i in range(n)]
    msgs, got = [], []

    class Ctl:
        _rep = "CTL"

    def parse(head, cb, data, ctl, lg, lgd, lim):
        x.check_same(head, [names] if files else ["prg"], "input")
        x.check(ctl == "CTL" if withctl else ctl is fk.NULL, "control")
        x.check_same(lim, limit if withlog else 20, "message limit")
        x.check((lg is not fk.NULL) == bool(withlog), "logger")
        if withlog:
            lg(lib.clingo_warning_other, fk.cstr("message"), lgd)
        for i, s in enumerate(st):
            ok = cb(s, data)
            x.check(bool(ok) == (i != bad), "callback succeeds unless it raises")
            if not ok:
                return False
        return lib.fail(["", "clingo_error_runtime", "clingo_error_unknown"][fail], "syntax") if fail else True
    lib.on("clingo_ast_parse_string", lambda p, *a: parse([fk.text(p)], *a))
    lib.on("clingo_ast_parse_files", lambda p, k, *a: parse([[fk.text(p[i]) for i in range(k)]], *a))

    def add(s):
        got.append(s)
        if len(got) == bad + 1:
            raise Custom("e%d" % bad)
    kw = {}
    if withctl:
        kw["control"] = Ctl()
    if withlog:
        kw["logger"] = lambda c, m: msgs.append((c.name, m))
        kw["message_limit"] = limit
    try:
        A.parse_files(names, add, **kw) if files else A.parse_string("prg", add, **kw)
        r = "ok"
    except Custom as e:
        r = str(e)
    except RuntimeError as e:
        r = "runtime " + str(e)
    x.check(r == ("e%d" % bad if bad < n else "runtime syntax" if fail else "ok"), "errors")
    x.check([g._rep for g in got] == st[: bad + 1], "statements")
    x.check(msgs == [("Other", "message")] * (1 if withlog else 0), "messages")
    held = [s.refs for s in st[: len(got)]]
    got.clear()
    gc.collect()
    x.check([s.refs for s in st[: len(held)]] == [h - 1 for h in held], "references are counted")
    x.reach("end")


def unpooling(x):
    """unpooling, text, comparison, program builders"""
    o, c = x.bool("other"), x.bool("condition")
    n = x.pick("n", 4)
    res = [leaf(i) for i in range(n)]
    got = []
    ok = x.pick("ok", 2) == 1

    def unpool(rep, t, cb, data):
        got.append((rep, t))
        for r in res:
            x.check(cb(r._rep, data) is True, "callback")
        return True if ok else lib.fail("clingo_error_runtime", "no")
    lib.on("clingo_ast_unpool", unpool)
    s = leaf(9)
    kw = [{}, {"other": o}, {"condition": c}, {"other": o, "condition": c}][x.pick("kw", 4)]
    want = (lib.clingo_ast_unpool_type_other if kw.get("other", True) else 0) | (lib.clingo_ast_unpool_type_condition if kw.get("condition", True) else 0)
    try:
        r = [y._rep for y in s.unpool(**kw)]
        x.check(ok and r == [y._rep for y in res], "unpooled")
    except RuntimeError as e:
        x.check(not ok and str(e) == "no", "failure")
    x.check_same(got, [(s._rep, want)], "kinds of unpooling")
    text = ["", "a b", "\u00e4"][x.pick("text", 3)].encode() + b"\0"
    lib.on("clingo_ast_to_string_size", lambda rep, p: p.__setitem__(0, len(text)) or True)

    def tostr(rep, p, k):
        x.check(k == len(text) and rep is s._rep, "size of text")
        for i, y in enumerate(text):
            p[i] = y
        return True
    lib.on("clingo_ast_to_string", tostr)
    x.check(str(s) == text[:-1].decode(), "text")
    a, b = x.pick("a", 3), x.pick("b", 3)
    p, q = leaf(a), leaf(b)
    x.check((p == q) == (a == b) and (p != q) == (a != b) and (p < q) == (a < b) and (p <= q) == (a <= b) and (p > q) == (a > b), "comparison")
    log = []
    good = x.pick("good", 2) == 1

    def step(n, r=True):
        def f(*a):
            log.append((n,) + a)
            return r if r is True else lib.fail("clingo_error_runtime", "bad statement")
        return f
    lib.on("clingo_program_builder_init", lambda c, p: p.__setitem__(0, "PB") or c == "CTL")
    lib.on("clingo_program_builder_begin", step("begin"))
    lib.on("clingo_program_builder_end", step("end"))
    lib.on("clingo_program_builder_add", step("add", True if good else False))

    class Ctl:
        _rep = "CTL"
    try:
        with A.ProgramBuilder(Ctl()) as bld:
            bld.add(p)
            bld.add(q)
        x.check(good, "failure")
    except RuntimeError as e:
        x.check(not good and str(e) == "bad statement", "failure")
    x.check(log == [("begin", "PB"), ("add", "PB", p._rep)] + [("add", "PB", q._rep)] * good + [("end", "PB")], "program builder")
    x.reach("end")


def main(x):
    [nodes, transformer, parsing, unpooling][x.param("case")](x)
