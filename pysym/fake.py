"""A stand-in for the foreign function layer below the Python package: memory is Python objects, library functions are supplied by the harness."""
import re, sys, types
import engine


class Null:
    def __bool__(self):
        return False

    def __repr__(self):
        return "NULL"

    def __getitem__(self, i):
        raise MemoryError("null pointer")


NULL = Null()


class Struct:
    def __init__(self, fields=(), values=()):
        self.__dict__["_f"] = dict(zip(fields, values)) if fields else {}

    def __getattr__(self, n):
        if n in self._f:
            return self._f[n]
        if n.startswith("__"):
            raise AttributeError(n)
        s = self._f[n] = Struct()
        return s

    def __setattr__(self, n, v):
        self._f[n] = v


class Mem:
    """an array or a pointer to one object"""

    def __init__(self, cells, off=0):
        self.cells, self.off = cells, off

    def at(self, i):
        i = int(i) + self.off
        if i < 0 or i >= len(self.cells):
            raise MemoryError("access outside of an array")
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[k] for k in range(int(i.start or 0), int(i.stop))]
        return self.cells[self.at(i)]

    def __setitem__(self, i, v):
        self.cells[self.at(i)] = v

    def __len__(self):
        return len(self.cells) - self.off

    def __iter__(self):
        return iter(self.cells[self.off:])

    def __add__(self, n):
        return Mem(self.cells, self.off + int(n))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.cells[self.off], n)

    def __setattr__(self, n, v):
        if n in ("cells", "off"):
            object.__setattr__(self, n, v)
        else:
            setattr(self.cells[self.off], n, v)


class Str(Mem):
    def __init__(self, b):
        super().__init__(list(b) + [0])


def cstr(s):
    return Str(s.encode())


def text(p):
    return ffi.string(p).decode() if isinstance(p, Mem) else bytes(p).decode()


STRUCTS = ("clingo_part_t", "clingo_weighted_literal_t", "clingo_location_t", "clingo_script_t", "clingo_application_t", "clingo_propagator_t", "clingo_ground_program_observer_t",
           "clingo_ast_callback_v2_t")


class FFI:
    NULL = NULL

    def __init__(self):
        self.fields = {}
        self.cb = {}

    def value(self, base, init):
        if base in STRUCTS:
            if isinstance(init, Struct):
                return init
            f = self.fields.get(base, ())
            if init is None:
                return Struct(f, [NULL] * len(f))
            assert not f or len(init) <= len(f), base
            return Struct(f or ["f%d" % i for i in range(len(init))], list(init))
        if init is None:
            return NULL if base.endswith("*") else False if base == "bool" else 0
        return init

    def new(self, ctype, init=None):
        ctype = ctype.strip()
        m = re.match(r"(.*)\[(\d*)\]$", ctype)
        if m:
            base = m.group(1).replace("const", "").strip()
            if m.group(2):
                return Mem([self.value(base, None) for _ in range(int(m.group(2)))])
            if base == "char":
                return Str(init) if isinstance(init, (bytes, bytearray)) else Mem([0] * int(init))
            if isinstance(init, (list, tuple)):
                return Mem([self.value(base, x) for x in init])
            return Mem([self.value(base, None) for _ in range(int(init))])
        assert ctype.endswith("*"), ctype
        return Mem([self.value(ctype[:-1].strip(), init)])

    def string(self, p):
        r = bytearray()
        i = 0
        while p[i] != 0:
            r.append(p[i] if isinstance(p[i], int) else ord(p[i]))
            i += 1
        return bytes(r)

    def cast(self, t, x):
        return x

    def new_handle(self, x):
        return Mem([x])

    def from_handle(self, h):
        return h[0]

    def unpack(self, p, n):
        return [p[i] for i in range(int(n))]

    def def_extern(self, name=None, onerror=None, error=None):
        def deco(f):
            def call(*a):
                try:
                    return f(*a)
                except Exception:
                    t, v, tb = sys.exc_info()
                    r = onerror(t, v, tb.tb_next) if onerror else error
                    return r
            call.fun = f
            self.cb[name or f.__name__] = call
            return f
        return deco


class Lib:
    def __init__(self, consts):
        self.__dict__.update(consts=consts, fns={}, error=(0, ""), names=None)
        self.fns.update(clingo_error_code=lambda: self.error[0], clingo_error_message=lambda: cstr(self.error[1]), clingo_set_error=self._seterr)

    def __setattr__(self, n, v):
        self.fns[n] = v

    def _seterr(self, c, m):
        self.__dict__["error"] = (c, text(m))

    def fail(self, code="clingo_error_runtime", msg="failed"):
        self._seterr(self.consts[code], msg.encode())
        return False

    def on(self, name, f):
        self.fns[name] = f

    def __getattr__(self, n):
        if n in self.consts:
            return self.consts[n]
        if n in self.fns:
            return self.fns[n]
        if n.startswith("pyclingo_"):
            return ffi.cb[n]
        if self.names is not None and n not in self.names:
            raise AttributeError(n)
        raise engine.Unmodeled("library function %s is not modeled" % n)


def constants(header):
    """the enumeration constants of the C header"""
    t = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", open(header).read(), flags=re.S))
    r = {}
    for body in re.findall(r"enum\s+\w+\s*\{(.*?)\}", t, flags=re.S):
        nxt = 0
        for item in body.split(","):
            item = item.strip()
            if not item:
                continue
            n, _, e = item.partition("=")
            if e:
                e = re.sub(r"\b(\d+)[uU]\b", r"\1", e)
                nxt = eval(e.strip(), {}, dict(r))
            r[n.strip()] = nxt
            nxt += 1
    return r


def structs(header):
    """field names of the structures of callbacks"""
    t = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", open(header).read(), flags=re.S))
    r = {}
    for body, name in re.findall(r"typedef struct \w+\s*\{(.*?)\}\s*(\w+)\s*;", t, flags=re.S):
        fs = []
        for d in body.split(";"):
            d = d.strip()
            if not d:
                continue
            m = re.search(r"\(\*\s*(\w+)\s*\)", d) or re.search(r"(\w+)\s*$", d)
            fs.append(m.group(1))
        r[name] = fs
    return r


class Symbols:
    """symbols of the library as Python tuples"""

    def __init__(self, lib):
        c = lib.consts

        def out(f):
            def g(*a):
                a[-1][0] = f(*a[:-1])
                return True
            return g
        on = lib.on
        on("clingo_symbol_create_infimum", out(lambda: ("inf",)))
        on("clingo_symbol_create_supremum", out(lambda: ("sup",)))
        on("clingo_symbol_create_number", out(lambda n: ("num", n)))
        on("clingo_symbol_create_string", out(lambda s: ("str", text(s))))
        on("clingo_symbol_create_function", out(lambda n, a, k, p: ("fun", text(n), tuple(a[i] for i in range(k)), p)))
        on("clingo_symbol_type", lambda s: c["clingo_symbol_type_" + {"inf": "infimum", "sup": "supremum", "num": "number", "str": "string", "fun": "function"}[s[0]]])

        def need(kind, f):
            def g(s, *o):
                if s[0] != kind:
                    return lib.fail("clingo_error_runtime", "unexpected")
                v = f(s)
                for p, x in zip(o, v):
                    p[0] = x
                return True
            return g
        on("clingo_symbol_number", need("num", lambda s: (s[1],)))
        on("clingo_symbol_string", need("str", lambda s: (cstr(s[1]),)))
        on("clingo_symbol_name", need("fun", lambda s: (cstr(s[1]),)))
        on("clingo_symbol_arguments", need("fun", lambda s: (Mem(list(s[2])), len(s[2]))))
        on("clingo_symbol_is_positive", need("fun", lambda s: (bool(s[3]),)))
        on("clingo_symbol_is_negative", need("fun", lambda s: (not s[3],)))
        on("clingo_symbol_is_equal_to", lambda a, b: a == b)
        on("clingo_symbol_is_less_than", lambda a, b: less(a, b))
        on("clingo_symbol_hash", lambda a: hash(a))


def less(a, b):
    k = {"inf": 0, "num": 1, "str": 2, "fun": 3, "sup": 4}
    if a[0] != b[0]:
        return k[a[0]] < k[b[0]]
    return a[1:] < b[1:]


ffi = lib = asts = None


def install(repo):
    global ffi, lib
    ffi = FFI()
    hdr = repo + "/libclingo/clingo.h"
    lib = Lib(constants(hdr))
    ffi.fields = structs(hdr)
    lib.__dict__["names"] = set(re.findall(r"\w+", open(hdr).read()))
    Symbols(lib)

    def version(*p):
        for k, q in enumerate(p):
            q[0] = k
    lib.on("clingo_version", version)
    import fakeast
    global asts
    asts = fakeast.Asts(repo, lib)
    m = types.ModuleType("_clingo")
    m.ffi, m.lib = ffi, lib
    sys.modules["_clingo"] = m
    return lib, ffi
