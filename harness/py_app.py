# applications and scripts written in Python
import sys
import types
import __main__
from clingo.application import Application, ApplicationOptions, Flag, clingo_main
from clingo.control import Control
from clingo.core import MessageCode
from clingo.script import Script, enable_python, register_script
from clingo.symbol import Function, Number, Tuple_, parse_term

I32 = 2**31


CTL = fk.Struct(("a",), (1,))


class Custom(Exception):
    pass


def application(x):
    lib.on("clingo_control_free", lambda rep: None)
    names = ("program_name", "version", "message_limit", "main", "logger", "print_model", "register_options", "validate_options")
    one = x.pick("which", len(names))
    rest = x.pick("rest", 2) == 1
    has = {n: (x.pick("has", 2) == 1 if i == one else rest) for i, n in enumerate(names)}
    limit = x.int("limit", 0, I32)
    code = x.int("code", 0, 255)
    raises = x.pick("raises", 2)
    ok = x.bool("ok")
    args = ["a", "b c", ""][: x.pick("args", 4)]
    log = []

    class App(Application if x.bool("base") else object):
        pass

    def put(n, v):
        if has[n]:
            setattr(App, n, v)
    put("program_name", "name")
    put("version", "1 2")
    put("message_limit", limit)

    def main(self, ctl, files):
        log.append(("main", ctl._rep, files))
        if raises:
            raise Custom("m")

    def pm(self, model, printer):
        log.append(("print_model", model._rep))
        printer()

    def ro(self, o):
        flag = self.flag = Flag()
        o.add("g", "o,@1", "d e", lambda s: log.append(("parse", s)) or ok, multi=x.bool("multi"), argument="<n>" if x.bool("arg") else None)
        o.add_flag("g2", "f", "d2", flag)
    put("main", main)
    put("print_model", pm)
    put("register_options", ro)
    put("validate_options", lambda self: log.append("validate") or ok)
    put("logger", lambda self, c, m: log.append(("log", c, m)))
    app = App()
    opts = {}

    def run(a, argv, argc, data):
        s = a[0]
        x.check([fk.text(argv[i]) for i in range(argc)] == args, "arguments")
        x.check(len(s._f) == len(names), "all callbacks")
        f = {("print_model" if n == "printer" else n): c for n, c in s._f.items()}
        for n in names:
            x.check((f[n] is not fk.NULL) == has[n], "exactly the given callbacks are registered")
        if has["program_name"]:
            x.check(fk.text(f["program_name"](data)) == "name", "name")
        if has["version"]:
            x.check(fk.text(f["version"](data)) == "1 2", "version")
        if has["message_limit"]:
            x.check_same(f["message_limit"](data), limit, "message limit")
        if has["register_options"]:
            lib.on("clingo_options_add", lambda o, g, n, d, cb, dt, multi, arg: opts.update(o=(o, fk.text(g), fk.text(n), fk.text(d), multi, None if arg is fk.NULL else fk.text(arg), cb, dt)) or True)
            lib.on("clingo_options_add_flag", lambda o, g, n, d, t: opts.update(f=(o, fk.text(g), fk.text(n), fk.text(d), t)) or True)
            x.check(f["register_options"]("OPT", data) is True, "options")
            o = opts["o"]
            x.check_same(list(o[:6]), ["OPT", "g", "o,@1", "d e", x.bool("multi"), "<n>" if x.bool("arg") else None], "option")
            x.check_same(o[6](fk.cstr("val"), o[7]), ok, "parsing an option")
            x.check(log[-1] == ("parse", "val"), "value of an option")
            x.check(opts["f"][:4] == ("OPT", "g2", "f", "d2"), "flag")
            x.check(not app.flag, "flag is not set")
            opts["f"][4][0] = True
            x.check(bool(app.flag) and app.flag.flag is True, "flag is set")
        if has["validate_options"]:
            x.check_same(f["validate_options"](data), ok, "validation")
        if has["logger"]:
            f["logger"](lib.clingo_warning_atom_undefined, fk.cstr("a b"), data)
            x.check(log[-1] == ("log", MessageCode.AtomUndefined, "a b"), "messages")
        if has["print_model"]:
            prt = []
            x.check(f["print_model"]("M", lambda d: prt.append(d) or True, "PD", data) is True, "printing")
            x.check(prt == ["PD"] and log[-1] == ("print_model", "M"), "printing models")
        if has["main"]:
            err, sys.stderr = sys.stderr, types.SimpleNamespace(write=lambda s: None, flush=lambda: None)
            try:
                r = f["main"](CTL, fk.Mem([fk.cstr("x"), fk.cstr("y z")]), 2, data)
            finally:
                sys.stderr = err
            x.check(r is (not raises), "exceptions in main are reported")
            x.check(log[-1] == ("main", CTL, ["x", "y z"]), "main")
        return code
    lib.on("clingo_main", run)
    x.check_same(clingo_main(app, args), code, "exit code")
    x.reach("end")


def script(x):
    """functions of scripts are found and called during grounding"""
    lib.on("clingo_control_free", lambda rep: None)
    n, m = x.int("n", -I32, I32 - 1), x.int("m", -I32, I32 - 1)
    lib.on("clingo_add_string", lambda s, p: p.__setitem__(0, fk.cstr(fk.text(s))) or True)
    reg = []
    lib.on("clingo_register_script", lambda name, s, d: reg.append((fk.text(name), s[0], d)) or True)
    own = x.pick("own", 2) == 1
    ret = x.pick("ret", 7)
    nargs = x.pick("args", 3)
    fails = x.pick("fails", 2)
    raises = x.pick("raises", 4)
    log = []

    def fun(*a):
        log.append([y._rep for y in a])
        if raises == 1:
            raise Custom("boom")
        return [lambda: Number(n), lambda: [], lambda: [Number(n), Number(m)], lambda: (Function("g", [Number(n)]),), lambda: iter([Number(m)]), lambda: Tuple_([Number(n)]), lambda: [Tuple_([])]][ret]()
    exp = [[("num", n)], [], [("num", n), ("num", m)], [("fun", "g", (("num", n),), True)], [("num", m)], [("fun", "", (("num", n),), True)], [("fun", "", (), True)]][ret]

    def mainf(ctl):
        log.append(ctl._rep)
        if raises == 2:
            raise Custom("main")
    if own:
        class S(Script):
            def execute(self, location, code):
                log.append((tuple(location.begin), tuple(location.end), code))
                if raises == 3:
                    raise Custom("exec")

            def call(self, location, name, arguments):
                x.check(name == "fun" and location.begin.line == 3, "name")
                return fun(*arguments)

            def callable(self, name):
                return name == "fun"

            def main(self, control):
                mainf(control)
        register_script("mine", S(), "7.8")
    else:
        enable_python()
        __main__.harness_fun, __main__.harness_value, __main__.main = fun, 3, mainf
    name, s, data = reg[0]
    x.check(name == ("mine" if own else "python"), "name of the language")
    x.check(s.free is fk.NULL, "nothing to free")
    if own:
        x.check(fk.text(s.version) == "7.8", "version")
    at = fk.Struct(ffi.fields["clingo_location_t"], [0] * 6)
    at.begin_file, at.end_file, at.begin_line, at.end_line, at.begin_column, at.end_column = fk.cstr("f"), fk.cstr("g"), 3, 4, 5, 6
    fn = "fun" if own else "harness_fun"

    def msg():
        return fk.text(lib.clingo_error_message())
    code = "log" if own else "harness_var = %s" % ("1 // 0" if raises == 3 else "5")
    r = s.execute(at, fk.cstr(code), data)
    x.check(r is (raises != 3), "execution fails if the code does")
    if raises == 3:
        x.check(("Custom: exec" if own else "ZeroDivisionError") in msg(), "message")
        x.check(lib.clingo_error_code() == lib.clingo_error_runtime, "error")
    if own:
        x.check(log.pop() == (("f", 3, 5), ("g", 4, 6), code), "location and code")
    elif raises != 3:
        x.check(__main__.harness_var == 5, "executed in the main module")
    for k, w in ((fn, True), ("nofun", False), ("harness_value", False)):
        p = fk.Mem([None])
        x.check(s.callable(fk.cstr(k), p, data) is True and p[0] is w, "callable")
    got = []

    def symcb(a, k, d):
        got.append((d, [a[i] for i in range(k)]))
        return lib.fail("clingo_error_logic", "cb") if fails else True
    r = s.call(at, fk.cstr(fn), fk.Mem([("num", m)] * nargs), nargs, symcb, "D", data)
    x.check_same(log, [[("num", m)] * nargs], "arguments")
    x.check(r is (raises != 1 and not fails), "calls fail if functions do")
    x.check_same(got, [] if raises == 1 else [("D", exp)], "results")
    if raises == 1:
        x.check("Custom: boom" in msg(), "message")
    log.clear()
    r = s.main(CTL, data)
    x.check(log == [CTL] and r is (raises != 2), "main")
    if not own:
        del __main__.harness_fun, __main__.harness_value, __main__.main
    x.reach("end")


def parseterm(x):
    n, limit = x.int("n", -I32, I32 - 1), x.int("limit", 0, 100)
    ok, withlog = x.pick("ok", 2) == 1, x.pick("log", 2) == 1
    code = x.pick("code", 7)
    names = [("AtomUndefined", "atom_undefined"), ("FileIncluded", "file_included"), ("GlobalVariable", "global_variable"), ("OperationUndefined", "operation_undefined"), ("Other", "other"), ("RuntimeError", "runtime_error"), ("VariableUnbounded", "variable_unbounded")]
    msgs = []

    def parse(s, cb, data, lim, p):
        x.check(fk.text(s) == "1 + 2", "input")
        x.check_same(lim, limit if withlog else 20, "message limit")
        if withlog:
            cb(getattr(lib, "clingo_warning_" + names[code][1]), fk.cstr("msg"), data)
        p[0] = ("num", n)
        return True if ok else lib.fail("clingo_error_runtime", "syntax")
    lib.on("clingo_parse_term", parse)
    log = lambda c, m: msgs.append((c, m))
    try:
        r = parse_term("1 + 2", log, limit) if withlog else parse_term("1 + 2")
        x.check(ok, "failure")
        x.check_same(r._rep, ("num", n), "term")
    except RuntimeError as e:
        x.check(not ok and str(e) == "syntax", "failure")
    x.check(msgs == ([(MessageCode[names[code][0]], "msg")] if withlog else []), "messages")
    # messages while grounding
    def new(a, k, cb, data, lim, p):
        x.check([fk.text(a[i]) for i in range(k)] == ["0", "-c x"][:k], "arguments")
        x.check_same(lim, limit if withlog else 20, "message limit")
        x.check((cb is not fk.NULL) == withlog, "logger")
        if withlog:
            cb(getattr(lib, "clingo_warning_" + names[code][1]), fk.cstr("new"), data)
        p[0] = CTL
        return True if ok else lib.fail("clingo_error_runtime", "bad option")
    lib.on("clingo_control_new", new)
    freed = []
    lib.on("clingo_control_free", lambda rep: freed.append(rep))
    args = ["0", "-c x"][: x.pick("nargs", 3)]
    try:
        c = Control(args, log, limit) if withlog else Control(args)
        x.check(ok and c._rep == CTL, "created")
        del c
        x.check(freed == [CTL], "freed")
    except RuntimeError as e:
        x.check(not ok and str(e) == "bad option", "failure")
    x.check(not withlog or msgs[-1] == (MessageCode[names[code][0]], "new"), "messages")
    x.reach("end")


def main(x):
    [application, script, parseterm][x.param("case")](x)
