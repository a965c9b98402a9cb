// C interface of symbols and signatures: what is created can be inspected, anything else is refused, and text fits its buffer
#include "sym.hh"
#include <clingo.h>
#include <cstring>
using namespace H;
static clingo_symbol_t make(Spec const &s) {
    clingo_symbol_t r = 0;
    switch (s.kind) {
        case 0: clingo_symbol_create_infimum(&r); break;
        case 1: clingo_symbol_create_number(s.num, &r); break;
        case 2: symx_assert(clingo_symbol_create_string(s.s.c_str(), &r), "create a string"); break;
        case 4: clingo_symbol_create_supremum(&r); break;
        default: {
            std::vector<clingo_symbol_t> a;
            for (auto &x : s.args) a.push_back(make(x));
            if (a.empty() && !s.s.empty() && pick("as.id", 2)) symx_assert(clingo_symbol_create_id(s.s.c_str(), !s.neg, &r), "create a constant");
            else symx_assert(clingo_symbol_create_function(s.s.c_str(), a.data(), a.size(), !s.neg, &r), "create a function");
        }
    }
    return r;
}
static std::string expected(Spec const &s) {
    switch (s.kind) {
        case 0: return "#inf";
        case 1: return std::to_string(symx_concrete(s.num));
        case 4: return "#sup";
        case 2: {
            std::string r = "\"";
            for (char c : s.s) {
                if (c == '\n') r += "\\n";
                else if (c == '\\') r += "\\\\";
                else if (c == '"') r += "\\\"";
                else r.push_back(c);
            }
            return r + "\"";
        }
    }
    std::string r = s.neg ? "-" : "";
    r += s.s;
    if (s.args.empty() && !s.s.empty()) return r;
    r += "(";
    for (size_t i = 0; i < s.args.size(); ++i) r += (i ? "," : "") + expected(s.args[i]);
    if (s.s.empty() && s.args.size() == 1) r += ",";
    return r + ")";
}
static void refused(bool ok) { symx_assert(!ok && clingo_error_code() == clingo_error_runtime && clingo_error_message() && *clingo_error_message(), "asking for something else is an error"); }
static void inspect(Spec const &s, clingo_symbol_t x) {
    static const clingo_symbol_type_t types[] = {clingo_symbol_type_infimum, clingo_symbol_type_number, clingo_symbol_type_string, clingo_symbol_type_function, clingo_symbol_type_supremum};
    symx_assert(clingo_symbol_type(x) == types[s.kind], "type");
    static char const *const none = "none";
    int n = 4711;
    char const *st = none, *nm = none;
    bool p = pick("was", 2), neg = p, was = p;
    clingo_symbol_t dummy = 0;
    clingo_symbol_t const *as = &dummy;
    size_t k = 4711;
    clingo_set_error(clingo_error_success, "no error");
    bool rn = clingo_symbol_number(x, &n);
    if (s.kind == 1) symx_assert(rn && n == s.num, "number"); else { refused(rn); symx_assert(n == 4711, "nothing is returned"); }
    clingo_set_error(clingo_error_success, "no error");
    bool rs = clingo_symbol_string(x, &st);
    if (s.kind == 2) symx_assert(rs && std::string(st) == s.s, "string"); else { refused(rs); symx_assert(st == none, "nothing is returned"); }
    clingo_set_error(clingo_error_success, "no error");
    bool rm = clingo_symbol_name(x, &nm);
    if (s.kind == 3) symx_assert(rm && std::string(nm) == s.s, "name"); else { refused(rm); symx_assert(nm == none, "nothing is returned"); }
    clingo_set_error(clingo_error_success, "no error");
    bool rp = clingo_symbol_is_positive(x, &p);
    if (s.kind == 3) symx_assert(rp && p == !s.neg, "sign"); else { refused(rp); symx_assert(p == was, "nothing is returned"); }
    clingo_set_error(clingo_error_success, "no error");
    bool rg = clingo_symbol_is_negative(x, &neg);
    if (s.kind == 3) symx_assert(rg && neg == s.neg, "sign"); else { refused(rg); symx_assert(neg == was, "nothing is returned"); }
    clingo_set_error(clingo_error_success, "no error");
    bool ra = clingo_symbol_arguments(x, &as, &k);
    if (s.kind == 3) {
        symx_assert(ra && k == s.args.size(), "number of arguments");
        for (size_t i = 0; i < k; ++i) inspect(s.args[i], as[i]);
    } else { refused(ra); symx_assert(as == &dummy && k == 4711, "nothing is returned"); }
}
static void text(Spec const &s, clingo_symbol_t x) {
    std::string e = expected(s);
    size_t n = 0;
    symx_assert(clingo_symbol_to_string_size(x, &n) && n == e.size() + 1, "announced size");
    size_t m = static_cast<size_t>(pick("size", static_cast<int>(n) + 2));
    std::vector<char> b(m + 3, 'Z');
    clingo_set_error(clingo_error_success, "no error");
    bool ok = clingo_symbol_to_string(x, b.data(), m);
    symx_assert(ok == (m >= n), "text fits its buffer or is refused");
    if (ok) symx_assert(!memcmp(b.data(), e.c_str(), n), "text");
    else refused(ok);
    for (size_t i = std::min(m, ok ? n : m); i < b.size(); ++i) symx_assert(b[i] == 'Z', "nothing behind the text changes");
    // exactly the buffer
    std::vector<char> c(m);
    symx_assert(clingo_symbol_to_string(x, c.data(), m) == ok, "exact buffers");
}
static void pairs(GenOpt const &o) {
    Spec a = gen("a", o), b = gen("b", o);
    clingo_symbol_t x = make(a), y = make(b);
    int c = refcmp(a, b);
    symx_assert(clingo_symbol_is_equal_to(x, y) == (c == 0), "equality");
    symx_assert(clingo_symbol_is_equal_to(y, x) == (c == 0), "equality");
    symx_assert(clingo_symbol_is_less_than(x, y) == (c < 0), "order");
    symx_assert(clingo_symbol_is_less_than(y, x) == (c > 0), "order");
    if (c == 0) symx_assert(clingo_symbol_hash(x) == clingo_symbol_hash(y), "hashes of equal symbols");
}
struct SigSpec { std::string n; unsigned a; bool neg; clingo_signature_t s = 0; };
static SigSpec sig(std::string const &p) {
    SigSpec r{symStr(p + ".name", 2), symx_uint((p + ".arity").c_str(), 0, UINT32_MAX), (bool)pick((p + ".neg").c_str(), 2)};
    symx_assert(clingo_signature_create(r.n.c_str(), r.a, !r.neg, &r.s), "create a signature");
    symx_assert(std::string(clingo_signature_name(r.s)) == r.n, "name of a signature");
    symx_assert(clingo_signature_arity(r.s) == r.a, "arity");
    symx_assert(clingo_signature_is_positive(r.s) == !r.neg && clingo_signature_is_negative(r.s) == r.neg, "sign of a signature");
    return r;
}
static void signatures() {
    SigSpec a = sig("a"), b = sig("b");
    bool eq = a.n == b.n && a.a == b.a && a.neg == b.neg;
    bool lt = a.neg != b.neg ? !a.neg : a.a != b.a ? a.a < b.a : strcmp(a.n.c_str(), b.n.c_str()) < 0;
    symx_assert(clingo_signature_is_equal_to(a.s, b.s) == eq, "equal signatures");
    symx_assert(clingo_signature_is_less_than(a.s, b.s) == lt, "order of signatures");
    if (eq) symx_assert(clingo_signature_hash(a.s) == clingo_signature_hash(b.s), "hashes of equal signatures");
}
struct Log { int n = 0; };
static void terms(GenOpt const &o) {
    Spec s = gen("x", o);
    clingo_symbol_t x = make(s), y = 0;
    std::string e = expected(s);
    Log l;
    bool ok = clingo_parse_term(e.c_str(), [](clingo_warning_t, char const *, void *d) { ++static_cast<Log *>(d)->n; }, &l, 20, &y);
    symx_assert(ok && l.n == 0 && clingo_symbol_is_equal_to(x, y), "the text is the symbol");
}
static void strings() {
    std::string s = symStr("s", 3), t = symStr("t", 3);
    std::vector<char> b(s.begin(), s.end());
    b.push_back(0);
    char const *x = nullptr, *y = nullptr;
    symx_assert(clingo_add_string(b.data(), &x) && clingo_add_string(t.c_str(), &y), "strings are added");
    b[0] = '!';
    symx_assert(std::string(x) == s && std::string(y) == t, "strings are kept");
    symx_assert((x == y) == (s == t), "equal strings are one");
    int code = symx_int("code", -1, 6);
    static char const *names[] = {"success", "runtime error", "logic error", "bad allocation", "unknown error"};
    char const *m = clingo_error_string(code);
    symx_assert(code < 0 || code > 4 ? m == nullptr : std::string(m) == names[symx_concrete(code)], "name of an error");
    static char const *ws[] = {"operation undefined", "runtime error", "atom undefined", "file included", "variable unbounded", "global variable", "other"};
    int w = symx_int("warning", -1, 8);
    symx_assert(std::string(clingo_warning_string(w)) == (w < 0 || w > 6 ? "unknown message code" : ws[symx_concrete(w)]), "name of a warning");
    clingo_set_error(code, s.c_str());
    symx_assert(clingo_error_code() == code && std::string(clingo_error_message()) == s, "error that was set");
}
int main() {
    GenOpt o;
    o.depth = (int)symx_param("depth", 1);
    o.maxArgs = (int)symx_param("args", 2);
    o.strLen = (int)symx_param("str", 2);
    o.nlo = (int)symx_param("nlo", INT32_MIN);
    o.nhi = (int)symx_param("nhi", INT32_MAX);
    o.leafOnlyNum = symx_param("leafnum", 0);
    switch ((int)symx_param("mode", 0)) {
        case 0: { Spec s = gen("x", o); inspect(s, make(s)); break; }
        case 1: { Spec s = gen("x", o); text(s, make(s)); break; }
        case 2: pairs(o); break;
        case 3: signatures(); break;
        case 4: terms(o); break;
        default: strings();
    }
    symx_reach("end");
}
