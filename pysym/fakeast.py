"""nodes of the abstract syntax tree below the Python package; attributes and constructors are read from the sources of the library"""
import re
import fake
from fake import Mem, Struct, Str, NULL, cstr, text


class Node:
    def __init__(self, type_, attrs):
        self.type, self.attrs, self.refs = type_, attrs, 1


class Asts:
    def __init__(self, repo, lib):
        src = open(repo + "/libclingo/src/control.cc").read()
        c = lib.consts
        m = re.search(r"char const \*attribute_list\[\] = \{(.*?)\};", src, re.S)
        self.names = re.findall(r'"(\w+)"', m.group(1))
        self.cons = {}
        order = [t for t in c if t.startswith("clingo_ast_type_")]
        for name, body in re.findall(r"\bC\((\w+)\)\s*\{(.*?)\};", src, re.S):
            self.cons[c["clingo_ast_type_" + name]] = (name, [(c["clingo_ast_attribute_" + a], t) for a, t in re.findall(r"A\((\w+), (\w+)\)", body)])
        self.ty = {t: c["clingo_ast_attribute_type_" + t] for t in "number symbol location string ast optional_ast string_array ast_array".split()}
        lib.on("g_clingo_ast_attribute_names", Struct(("names", "size"), (Mem([cstr(n) for n in self.names]), len(self.names))))
        tab = [None] * (max(self.cons) + 1)
        for t, (n, args) in self.cons.items():
            tab[t] = Struct(("name", "arguments", "size"), (cstr(n), Mem([Struct(("attribute", "type"), (a, self.ty[k])) for a, k in args]), len(args)))
        lib.on("g_clingo_ast_constructors", Struct(("constructors", "size"), (Mem(tab), len(tab))))
        self.live = 0
        self.lib = lib

        def fn(name):
            def deco(f):
                lib.on(name, f)
                return f
            return deco

        def guard(f):
            def g(*a):
                try:
                    return f(*a) is not False
                except (KeyError, IndexError, MemoryError) as e:
                    return lib.fail("clingo_error_runtime", "%s: %s" % (type(e).__name__, e))
            return g

        def reg(name, f):
            lib.on(name, guard(f))

        def build(t, out, *a):
            a = list(a)
            at = {}
            for attr, k in self.cons[t][1]:
                v = a.pop(0)
                if k == "string":
                    v = text(v)
                elif k == "location":
                    v = Struct(list(v._f), list(v._f.values()))
                elif k == "ast_array":
                    v = [v[i] for i in range(a.pop(0))]
                elif k == "string_array":
                    v = [text(v[i]) for i in range(a.pop(0))]
                elif k == "ast" and v is NULL:
                    raise KeyError("null")
                at[attr] = [k, v]
            assert not a, "too many arguments"
            out[0] = Node(t, at)
        reg("clingo_ast_build", build)
        lib.on("clingo_ast_acquire", lambda n: setattr(n, "refs", n.refs + 1))

        def release(n):
            n.refs -= 1
            assert n.refs >= 0, "released too often"
        lib.on("clingo_ast_release", release)

        def setp(p, v):
            p[0] = v
        reg("clingo_ast_get_type", lambda n, p: setp(p, n.type))
        reg("clingo_ast_has_attribute", lambda n, a, p: setp(p, a in n.attrs))
        reg("clingo_ast_attribute_type", lambda n, a, p: setp(p, self.ty[n.attrs[a][0]]))

        def get(n, a, k):
            if n.attrs[a][0] != k:
                raise KeyError("wrong type")
            return n.attrs[a][1]

        def put(n, a, k, v):
            get(n, a, k)
            n.attrs[a][1] = v

        def own(v):
            if isinstance(v, Node):
                v.refs += 1
            return v
        for k, dec, enc in (("string", cstr, text), ("number", lambda v: v, lambda v: v), ("symbol", lambda v: v, lambda v: v), ("location", lambda v: v, lambda v: Struct(list(v._f), list(v._f.values()))),
                            ("ast", own, own), ("optional_ast", own, own)):
            reg("clingo_ast_attribute_get_" + k, lambda n, a, p, k=k, dec=dec: setp(p, dec(get(n, a, k))))
            reg("clingo_ast_attribute_set_" + k, lambda n, a, v, k=k, enc=enc: put(n, a, k, enc(v)))
        for s, k, dec, enc in (("ast", "ast_array", own, own), ("string", "string_array", cstr, text)):
            def chk(l, i, top):
                # an index is a size_t
                if i < 0:
                    raise OverflowError("can't convert negative number to unsigned")
                if i > len(l) - 1 + top:
                    raise SystemError("index %d outside of an array of size %d reaches the library" % (i, len(l)))
                return int(i)

            def get_at(n, a, i, p, k=k, dec=dec):
                l = get(n, a, k)
                if i < 0:
                    raise OverflowError("negative")
                if i >= len(l):
                    raise IndexError("range")
                setp(p, dec(l[int(i)]))
            reg("clingo_ast_attribute_get_%s_at" % s, get_at)

            def set_at(n, a, i, v, k=k, enc=enc):
                l = get(n, a, k)
                l[chk(l, i, 0)] = enc(v)
            reg("clingo_ast_attribute_set_%s_at" % s, set_at)

            def del_at(n, a, i, k=k):
                l = get(n, a, k)
                del l[chk(l, i, 0)]
            reg("clingo_ast_attribute_delete_%s_at" % s, del_at)

            def ins_at(n, a, i, v, k=k, enc=enc):
                l = get(n, a, k)
                l.insert(chk(l, i, 1), enc(v))
            reg("clingo_ast_attribute_insert_%s_at" % s, ins_at)
            reg("clingo_ast_attribute_size_" + k, lambda n, a, p, k=k: setp(p, len(get(n, a, k))))

        def copy(n, deep):
            def cp(v):
                if isinstance(v, Node):
                    return copy(v, True) if deep else own(v)
                if isinstance(v, list):
                    return [cp(x) for x in v]
                return v
            return Node(n.type, {a: [k, cp(v)] for a, (k, v) in n.attrs.items()})
        reg("clingo_ast_copy", lambda n, p: setp(p, copy(n, False)))
        reg("clingo_ast_deep_copy", lambda n, p: setp(p, copy(n, True)))

        def key(n):
            def kv(v):
                return key(v) if isinstance(v, Node) else tuple(map(kv, v)) if isinstance(v, list) else (() if v is NULL else v)
            return (n.type,) + tuple(kv(v) for a, (k, v) in sorted(n.attrs.items()) if k != "location")
        self.key = key
        lib.on("clingo_ast_equal", lambda a, b: key(a) == key(b))
        lib.on("clingo_ast_less_than", lambda a, b: key(a) < key(b))
        lib.on("clingo_ast_hash", lambda a: hash(key(a)))
