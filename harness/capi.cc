// C interface of syntax trees: attributes have the documented types, list operations check positions, text fits its buffer, building yields what was given, failing callbacks are reported
#include "ast.hh"
#include <clingo.h>
using namespace H;
static const char *prgs[] = {
    "p(X,-1,1+2,1..2,f(a),(1;2),@g(b)) :- not q, X<2<3, #true, a:b,c. a:b | c. 0 {a:b} 1. 1 < #count{1,2:a:b} < 2.",
    "x :- 1 #sum{1,b:a; 2:c}, #sum{1:a} < 2, not {a} 3, &t(1){ 1+ -f(x,\"s\"),(1,[2],{3}):a,b }<=5. &t{}. :- a. x(|Y|,~Z) :- not Y=1, -x(Y,Z).",
    "#theory t { e { + : 1, binary, left; - : 2, unary }; &a/1 : e, {<=, =}, e, any; &b/0 : e, head }.",
    "#const n=1. [override] #show a/1. #show -a/1. #show a:b. :~ a,b. [1@2,c,d] #script (lua) x #end. #program p(k,l). #external a:b. [true] #edge(1,2):b.",
    "#heuristic a:b. [1@2,sign] #project a:b. #project a/1. #defined -b/2. % comment\n%* block *% #minimize{1:a}. #maximize{X@2,a:b(X)}.",
};
static const int P = sizeof(prgs) / sizeof(*prgs);
static const int NA = 45;
typedef clingo_ast_attribute_t At;
static clingo_ast_t *c(AST *a) { return reinterpret_cast<clingo_ast_t *>(a); }
static clingo_ast_t *c(SAST const &a) { return c(a.get()); }
static void collect(Trees &r, SAST const &a) {
    r.push_back(a);
    for (int i = 0; i < NA; ++i) {
        auto n = static_cast<clingo_ast_attribute_e>(i);
        if (!a->hasValue(n)) continue;
        auto &v = a->value(n);
        if (auto *x = mpark::get_if<SAST>(&v)) collect(r, *x);
        else if (auto *x = mpark::get_if<Input::OAST>(&v)) { if (x->ast.get()) collect(r, x->ast); }
        else if (auto *x = mpark::get_if<AST::ASTVec>(&v)) for (auto &y : *x) collect(r, y);
    }
}
static clingo_ast_argument_t const *documented(clingo_ast_type_t t, int at) {
    auto &k = g_clingo_ast_constructors.constructors[t];
    for (size_t i = 0; i < k.size; ++i) if (k.arguments[i].attribute == at) return k.arguments + i;
    return nullptr;
}
// the value of an attribute, read with the getter of a type
struct Val {
    bool ok = false;
    int num = 0;
    clingo_symbol_t sym = 0;
    clingo_location_t loc = {};
    std::string str;
    clingo_ast_t *ast = nullptr;
    std::vector<std::string> strs;
    std::vector<clingo_ast_t *> asts;
};
static Val read(clingo_ast_t *a, At at, int type) {
    Val r;
    char const *s = nullptr;
    size_t n = 0;
    switch (type) {
        case clingo_ast_attribute_type_number: r.ok = clingo_ast_attribute_get_number(a, at, &r.num); break;
        case clingo_ast_attribute_type_symbol: r.ok = clingo_ast_attribute_get_symbol(a, at, &r.sym); break;
        case clingo_ast_attribute_type_location: r.ok = clingo_ast_attribute_get_location(a, at, &r.loc); break;
        case clingo_ast_attribute_type_string: r.ok = clingo_ast_attribute_get_string(a, at, &s); if (r.ok) r.str = s; break;
        case clingo_ast_attribute_type_ast: r.ok = clingo_ast_attribute_get_ast(a, at, &r.ast); if (r.ok) clingo_ast_release(r.ast); break;
        case clingo_ast_attribute_type_optional_ast: r.ok = clingo_ast_attribute_get_optional_ast(a, at, &r.ast); if (r.ok && r.ast) clingo_ast_release(r.ast); break;
        case clingo_ast_attribute_type_string_array:
            r.ok = clingo_ast_attribute_size_string_array(a, at, &n);
            for (size_t i = 0; r.ok && i < n; ++i) { symx_assert(clingo_ast_attribute_get_string_at(a, at, i, &s), "string at position"); r.strs.push_back(s); }
            if (r.ok) symx_assert(!clingo_ast_attribute_get_string_at(a, at, n, &s), "no string behind the last");
            break;
        case clingo_ast_attribute_type_ast_array:
            r.ok = clingo_ast_attribute_size_ast_array(a, at, &n);
            for (size_t i = 0; r.ok && i < n; ++i) { clingo_ast_t *x; symx_assert(clingo_ast_attribute_get_ast_at(a, at, i, &x), "tree at position"); r.asts.push_back(x); clingo_ast_release(x); }
            if (r.ok) { clingo_ast_t *x; symx_assert(!clingo_ast_attribute_get_ast_at(a, at, n, &x), "no tree behind the last"); }
            break;
    }
    return r;
}
static bool sameLoc(clingo_location_t const &a, clingo_location_t const &b) {
    return std::string(a.begin_file) == b.begin_file && std::string(a.end_file) == b.end_file && a.begin_line == b.begin_line && a.end_line == b.end_line && a.begin_column == b.begin_column && a.end_column == b.end_column;
}
static bool same(Val const &a, Val const &b) {
    return a.ok == b.ok && a.num == b.num && a.sym == b.sym && (a.loc.begin_file == nullptr) == (b.loc.begin_file == nullptr) && (!a.loc.begin_file || sameLoc(a.loc, b.loc)) && a.str == b.str && a.ast == b.ast && a.strs == b.strs && a.asts == b.asts;
}
static void failed(const char *what) {
    symx_assert(clingo_error_code() != clingo_error_success, "error code of a failed call");
    symx_assert(clingo_error_message() && *clingo_error_message(), "message of a failed call");
    clingo_set_error(clingo_error_success, "none");
    (void)what;
}
// writes with the setter of a type: 0 number .. 7
struct New {
    int num = 5;
    clingo_symbol_t sym = 0;
    clingo_location_t loc = {"f", "g", 1, 2, 3, 4};
    std::string str = "s";
    clingo_ast_t *ast = nullptr;
};
static bool write(clingo_ast_t *a, At at, int type, New const &v) {
    switch (type) {
        case clingo_ast_attribute_type_number: return clingo_ast_attribute_set_number(a, at, v.num);
        case clingo_ast_attribute_type_symbol: return clingo_ast_attribute_set_symbol(a, at, v.sym);
        case clingo_ast_attribute_type_location: return clingo_ast_attribute_set_location(a, at, &v.loc);
        case clingo_ast_attribute_type_string: return clingo_ast_attribute_set_string(a, at, v.str.c_str());
        case clingo_ast_attribute_type_ast: return clingo_ast_attribute_set_ast(a, at, v.ast);
        case clingo_ast_attribute_type_optional_ast: return clingo_ast_attribute_set_optional_ast(a, at, v.ast);
        case clingo_ast_attribute_type_string_array: return clingo_ast_attribute_insert_string_at(a, at, 0, v.str.c_str());
        default: return clingo_ast_attribute_insert_ast_at(a, at, 0, v.ast);
    }
}
static std::vector<Val> all(clingo_ast_t *a) {
    clingo_ast_type_t t;
    std::vector<Val> r;
    symx_assert(clingo_ast_get_type(a, &t), "type");
    auto &k = g_clingo_ast_constructors.constructors[t];
    for (size_t i = 0; i < k.size; ++i) {
        r.push_back(read(a, k.arguments[i].attribute, k.arguments[i].type));
        symx_assert(r.back().ok, "documented attribute can be read");
    }
    return r;
}
static std::string str(clingo_ast_t *a) {
    size_t n = 0;
    symx_assert(clingo_ast_to_string_size(a, &n), "text size");
    std::vector<char> b(n);
    symx_assert(clingo_ast_to_string(a, b.data(), n), "text");
    symx_assert(n > 0 && b[n - 1] == 0, "text ends with a zero");
    return std::string(b.data());
}
// picks a tree of one of the programs
static SAST some(TreeReader &t) {
    int k = parts("case", P);
    symx_assert(t.read(prgs[k]), "accepted");
    Trees l;
    for (auto &x : t.trees) collect(l, x);
    return l[pick("tree", static_cast<int>(l.size()))];
}
static SAST leaf() {
    TreeReader u;
    u.read("zz(1).");
    return u.trees[1];
}
// (mode 0) attributes
static void attributes() {
    TreeReader t;
    SAST a = some(t), extra = leaf();
    auto *x = c(a);
    clingo_ast_type_t type;
    symx_assert(clingo_ast_get_type(x, &type), "type");
    symx_observe("type", g_clingo_ast_constructors.constructors[type].name);
    symx_observe("tree", str(x));
    auto before = all(x);
    std::string tb = str(x);
    unsigned refs = a->refCount();
    New v;
    v.ast = c(extra);
    unsigned erefs = extra->refCount();
    // attributes of other types cannot be read or written
    for (int at = 0; at < NA; ++at) {
        auto *d = documented(type, at);
        bool has = false;
        symx_assert(clingo_ast_has_attribute(x, at, &has) && has == (d != nullptr), "has exactly the documented attributes");
        clingo_ast_attribute_type_t ty = 99;
        bool ok = clingo_ast_attribute_type(x, at, &ty);
        symx_assert(ok == has && (!ok || ty == d->type), "attributes have the documented types");
        for (int k = 0; k < 8; ++k) {
            if (d && d->type == k) continue;
            symx_assert(!read(x, at, k).ok, "attribute cannot be read as another type");
            failed("get");
            symx_assert(!write(x, at, k, v), "attribute cannot be written as another type");
            failed("set");
        }
    }
    auto after = all(x);
    for (size_t i = 0; i < before.size(); ++i) symx_assert(same(before[i], after[i]), "failed writes change nothing");
    // writing one
    auto &k = g_clingo_ast_constructors.constructors[type];
    if (k.size > 0) {
        clingo_ast_t *cp = nullptr;
        symx_assert(clingo_ast_copy(x, &cp) && clingo_ast_equal(cp, x), "copy");
        int i = pick("attribute", static_cast<int>(k.size));
        auto at = k.arguments[i].attribute;
        auto ty = k.arguments[i].type;
        symx_observe("attribute", g_clingo_ast_attribute_names.names[at]);
        v.num = symx_int("number", INT32_MIN, INT32_MAX);
        v.sym = Symbol::createNum(symx_int("symbol", -9, 9)).rep();
        v.loc.begin_line = symx_uint("line", 0, 1000);
        v.loc.end_column = symx_uint("column", 0, 1000);
        v.str = std::string(1, static_cast<char>(symx_byte("char", 'a', 'b')));
        bool null = (ty == clingo_ast_attribute_type_ast || ty == clingo_ast_attribute_type_optional_ast || ty == clingo_ast_attribute_type_ast_array) && pick("null", 2);
        if (null) v.ast = nullptr;
        if (symx_param("native", 0)) {}
        bool ok = write(x, at, ty, v);
        symx_assert(ok == (!null || ty == clingo_ast_attribute_type_optional_ast), "value is accepted");
        if (!ok) failed("null");
        after = all(x);
        for (size_t j = 0; j < after.size(); ++j) if (!ok || (int)j != i) symx_assert(same(before[j], after[j]), "other attributes are left alone");
        if (ok) {
            auto &n = after[i];
            switch (ty) {
                case clingo_ast_attribute_type_number: symx_assert(n.num == v.num, "number is written"); break;
                case clingo_ast_attribute_type_symbol: symx_assert(n.sym == v.sym, "symbol is written"); break;
                case clingo_ast_attribute_type_location: symx_assert(sameLoc(n.loc, v.loc), "location is written"); break;
                case clingo_ast_attribute_type_string: symx_assert(n.str == v.str, "string is written"); break;
                case clingo_ast_attribute_type_ast: case clingo_ast_attribute_type_optional_ast: symx_assert(n.ast == v.ast, "tree is written"); break;
                default: symx_assert(n.strs.size() + n.asts.size() == before[i].strs.size() + before[i].asts.size() + 1, "list is written");
            }
            symx_assert(extra->refCount() == erefs + (v.ast && ty >= clingo_ast_attribute_type_ast && ty != clingo_ast_attribute_type_string_array), "references to a written tree");
        }
        // the copy is as before, and releasing everything leaves the references as before
        auto was = all(cp);
        for (size_t j = 0; j < was.size(); ++j) symx_assert(same(before[j], was[j]), "copy is left alone");
        symx_assert(str(cp) == tb, "text of the copy");
        symx_assert(a->refCount() == refs, "references to the tree");
        clingo_ast_release(cp);
    }
    symx_reach("end");
}
// (mode 1) list operations
static void lists() {
    static const char *ls[] = {
        "p(a,b).", ":- a, not b.", "1,2 {a}.", "&t{ 1 + - 2, 3 : a, b }.", "#theory t { e { + : 1, unary }; &a/0 : e, {<=, =}, e, any }.", "x :- 1<2<3.", "p :- #sum{1,2:a}.", "#program p(a,b).",
    };
    TreeReader t;
    int cs = parts("case", 8);
    symx_assert(t.read(cs == 2 ? ":- 1 = #sum { 1,2:a; 2:b }." : ls[cs]), "accepted");
    Trees l;
    for (auto &x : t.trees) collect(l, x);
    // the trees with lists
    std::vector<std::pair<SAST, clingo_ast_argument_t const *>> w;
    for (auto &x : l) {
        auto &k = g_clingo_ast_constructors.constructors[x->type()];
        for (size_t i = 0; i < k.size; ++i) if (k.arguments[i].type >= clingo_ast_attribute_type_string_array) w.push_back({x, k.arguments + i});
    }
    auto &ch = w[pick("list", static_cast<int>(w.size()))];
    auto *x = c(ch.first);
    At at = ch.second->attribute;
    bool strs = ch.second->type == clingo_ast_attribute_type_string_array;
    symx_observe("tree", str(x));
    symx_observe("attribute", g_clingo_ast_attribute_names.names[at]);
    auto m = read(x, at, ch.second->type);
    Trees extra{leaf(), leaf()};
    std::vector<SAST> keep; // trees that were removed stay usable
    for (auto *y : m.asts) keep.emplace_back(&y->ast);
    std::vector<unsigned> refs;
    for (auto &y : keep) refs.push_back(y->refCount());
    int steps = (int)symx_param("step", 2);
    for (int i = 0; i < steps; ++i) {
        std::string nm = std::to_string(i);
        int op = pick(("op" + nm).c_str(), 4);
        size_t n = strs ? m.strs.size() : m.asts.size();
        int d = pick(("pos" + nm).c_str(), static_cast<int>(n) + 3);
        size_t pos = d == static_cast<int>(n) + 2 ? static_cast<size_t>(-1) : static_cast<size_t>(d);
        SAST &e = extra[i % 2];
        std::string s(1, static_cast<char>('x' + i));
        symx_observe("position", std::to_string(op) + "@" + std::to_string(d));
        bool ok;
        if (strs) {
            char const *g = nullptr;
            switch (op) {
                case 0: ok = clingo_ast_attribute_get_string_at(x, at, pos, &g); symx_assert(ok == (pos < n) && (!ok || m.strs[pos] == g), "string read"); break;
                case 1: ok = clingo_ast_attribute_set_string_at(x, at, pos, s.c_str()); symx_assert(ok == (pos < n), "string replaced within the list"); if (ok) m.strs[pos] = s; break;
                case 2: ok = clingo_ast_attribute_insert_string_at(x, at, pos, s.c_str()); symx_assert(ok == (pos <= n), "string inserted within the list or at its end"); if (ok) m.strs.insert(m.strs.begin() + pos, s); break;
                default: ok = clingo_ast_attribute_delete_string_at(x, at, pos); symx_assert(ok == (pos < n), "string removed within the list"); if (ok) m.strs.erase(m.strs.begin() + pos);
            }
        } else {
            clingo_ast_t *g = nullptr;
            switch (op) {
                case 0: ok = clingo_ast_attribute_get_ast_at(x, at, pos, &g); symx_assert(ok == (pos < n) && (!ok || m.asts[pos] == g), "tree read"); if (ok) clingo_ast_release(g); break;
                case 1: ok = clingo_ast_attribute_set_ast_at(x, at, pos, c(e)); symx_assert(ok == (pos < n), "tree replaced within the list"); if (ok) m.asts[pos] = c(e); break;
                case 2: ok = clingo_ast_attribute_insert_ast_at(x, at, pos, c(e)); symx_assert(ok == (pos <= n), "tree inserted within the list or at its end"); if (ok) m.asts.insert(m.asts.begin() + pos, c(e)); break;
                default: ok = clingo_ast_attribute_delete_ast_at(x, at, pos); symx_assert(ok == (pos < n), "tree removed within the list"); if (ok) m.asts.erase(m.asts.begin() + pos);
            }
        }
        if (!ok) failed("list");
        auto r = read(x, at, ch.second->type);
        symx_assert(same(r, m), "list holds what was put there");
    }
    // every position of the list holds one reference, and so do those who look on
    for (size_t i = 0; i < 2; ++i) symx_assert(extra[i]->refCount() == 1 + std::count(m.asts.begin(), m.asts.end(), c(extra[i])), "references to inserted trees");
    for (size_t i = 0; i < keep.size(); ++i) symx_assert(keep[i]->refCount() == refs[i] - 1 + std::count(m.asts.begin(), m.asts.end(), c(keep[i])), "references to trees of the list");
    symx_reach("end");
}
// (mode 2) texts and buffers
static void buffers() {
    TreeReader t;
    SAST a = some(t);
    std::string s = text(a);
    size_t n = 0;
    symx_assert(clingo_ast_to_string_size(c(a), &n) && n == s.size() + 1, "size of the text and a zero");
    int d = pick("size", 4);
    size_t m = d == 0 ? 0 : d == 1 ? n / 2 : d == 2 ? n - 1 : n + 1;
    for (size_t k : {m, n}) {
        std::vector<char> b(k + 4, 'Z');
        bool ok = clingo_ast_to_string(c(a), b.data(), k);
        symx_assert(ok == (k >= n), "text fits its buffer or is refused");
        if (!ok) failed("text");
        else symx_assert(s == b.data(), "text of the tree");
        for (size_t i = 0; i < 4; ++i) symx_assert(b[k + i] == 'Z', "nothing is written behind the buffer");
    }
    symx_reach("end");
}
// (mode 3) building
static void building() {
    TreeReader t;
    SAST a = some(t), extra = leaf();
    auto &k = g_clingo_ast_constructors.constructors[a->type()];
    symx_observe("type", k.name);
    auto vals = all(c(a));
    std::vector<std::vector<char const *>> strs(vals.size());
    std::vector<uint64_t> s;
    int change = pick("change", static_cast<int>(k.size) + 1);
    int num = symx_int("number", INT32_MIN, INT32_MAX);
    for (size_t i = 0; i < vals.size(); ++i) {
        auto &v = vals[i];
        bool ch = change == static_cast<int>(i) + 1;
        switch (k.arguments[i].type) {
            case clingo_ast_attribute_type_number: if (ch) v.num = num; s.push_back(static_cast<uint64_t>(static_cast<int64_t>(v.num))); break;
            case clingo_ast_attribute_type_symbol: if (ch) v.sym = Symbol::createId("zz").rep(); s.push_back(v.sym); break;
            case clingo_ast_attribute_type_location: if (ch) { v.loc.begin_line = symx_uint("line", 0, 1000); v.loc.end_file = "q"; } s.push_back(reinterpret_cast<uint64_t>(&v.loc)); break;
            case clingo_ast_attribute_type_string: if (ch) v.str = "zz"; s.push_back(reinterpret_cast<uint64_t>(v.str.c_str())); break;
            case clingo_ast_attribute_type_ast: if (ch) v.ast = c(extra); s.push_back(reinterpret_cast<uint64_t>(v.ast)); break;
            case clingo_ast_attribute_type_optional_ast: if (ch) v.ast = v.ast ? nullptr : c(extra); s.push_back(reinterpret_cast<uint64_t>(v.ast)); break;
            case clingo_ast_attribute_type_string_array:
                if (ch) v.strs.push_back("zz");
                for (auto &x : v.strs) strs[i].push_back(x.c_str());
                s.push_back(reinterpret_cast<uint64_t>(strs[i].data()));
                s.push_back(strs[i].size());
                break;
            case clingo_ast_attribute_type_ast_array:
                if (ch) v.asts.push_back(c(extra));
                s.push_back(reinterpret_cast<uint64_t>(v.asts.data()));
                s.push_back(v.asts.size());
                break;
        }
    }
    while (s.size() < 12) s.push_back(0);
    clingo_ast_t *b = nullptr;
    symx_assert(clingo_ast_build(static_cast<clingo_ast_type_t>(a->type()), &b, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]), "tree is built");
    clingo_ast_type_t ty;
    symx_assert(clingo_ast_get_type(b, &ty) && ty == static_cast<clingo_ast_type_t>(a->type()), "tree has the given type");
    auto got = all(b);
    for (size_t i = 0; i < got.size(); ++i) symx_assert(same(got[i], vals[i]), "tree has the given attributes");
    if (change == 0) {
        symx_assert(clingo_ast_equal(b, c(a)) && !clingo_ast_less_than(b, c(a)) && !clingo_ast_less_than(c(a), b), "tree equals the one it was made after");
        symx_assert(clingo_ast_hash(b) == clingo_ast_hash(c(a)), "equal trees have equal hashes");
        symx_assert(str(b) == text(a), "tree has the same text");
    }
    clingo_ast_t *dc = nullptr;
    symx_assert(clingo_ast_deep_copy(b, &dc) && clingo_ast_equal(b, dc), "deep copy is equal");
    symx_assert(b->ast.refCount() == 1 && dc->ast.refCount() == 1, "caller owns the only reference");
    clingo_ast_release(b);
    auto left = all(dc);
    for (size_t i = 0; i < left.size(); ++i) symx_assert(k.arguments[i].type == clingo_ast_attribute_type_ast || k.arguments[i].type == clingo_ast_attribute_type_optional_ast || k.arguments[i].type == clingo_ast_attribute_type_ast_array || same(left[i], vals[i]), "deep copy stands on its own");
    clingo_ast_release(dc);
    symx_reach("end");
}
// (mode 4) callbacks
struct Cb { int calls = 0, failAt = -1, code = 0; std::string all; };
static bool on(clingo_ast_t *a, void *d) {
    auto &x = *static_cast<Cb *>(d);
    if (x.calls++ == x.failAt) { clingo_set_error(x.code, "stop here"); return false; }
    x.all += str(a) + "\n";
    return true;
}
struct Lg { int calls = 0; std::string all; int codes = 0; };
static void lg(clingo_warning_t w, char const *m, void *d) { auto &x = *static_cast<Lg *>(d); ++x.calls; x.all += m; x.codes |= 1 << w; }
static void callbacks() {
    static const char *ps[] = {"a. b(1;2) :- c.", "", "a. b( . c.", "a. b. #show a: &t{ 1+ }.", "p(X) :- X+. q. r r. s. )", "a(1;2;3;4;5). x :- p(1;2), {b((1;2))} 3; 1 = #sum{(1;2):a(3;4)}.", "#const n=1. #program p. % c\n a.", "x :- &t{ a }. :~ p(1;2). [3;4@5] #show (1;2): q(3;4)."};
    int k = parts("case", 8);
    // what comes without failures
    TreeReader t;
    bool ok = t.read(ps[k]);
    int n = static_cast<int>(t.trees.size());
    Cb cb;
    cb.failAt = pick("fail", n + 1);
    cb.code = 1 + pick("code", 4);
    Lg l;
    unsigned limit = static_cast<unsigned>(pick("limit", 4));
    bool log = pick("logger", 2);
    bool res = clingo_ast_parse_string(ps[k], on, &cb, nullptr, log ? lg : nullptr, &l, limit);
    bool stopped = cb.failAt < n;
    symx_assert(res == (ok && !stopped), "parsing succeeds exactly if there is nothing wrong");
    // parsing is given up when there are too many messages
    if (!ok && limit < 3) symx_reach("end");
    else if (stopped) {
        symx_assert(cb.calls == cb.failAt + 1, "parsing stops with the call that fails");
        symx_assert(clingo_error_code() == cb.code && std::string(clingo_error_message()) == "stop here", "error of the call that fails");
    } else {
        symx_assert(cb.calls == n && cb.all == text(t.trees), "every statement is passed on");
        if (!ok) failed("syntax");
        if (log) {
            int all = 0;
            for (auto &x : t.msgs.count) all += x;
            if (ok || limit >= 3) symx_assert(l.calls == std::min<int>(all, static_cast<int>(limit)) || l.all == t.msgs.all, "messages up to the limit");
            if (!ok) symx_assert(limit == 0 || l.calls > 0, "a syntax error is reported");
        }
    }
    // replacing pools
    if (n > 1) {
        Trees want;
        SAST last = t.trees[pick("which", n)];
        auto set = 1 + pick("set", 3);
        auto up = Input::unpool(last, set);
        if (up.has_value()) want = *up; else want.push_back(last);
        Cb d;
        d.failAt = std::min(cb.failAt, static_cast<int>(want.size()));
        d.code = cb.code;
        unsigned refs = last->refCount();
        bool ures = clingo_ast_unpool(c(last), static_cast<clingo_ast_unpool_type_bitset_t>(set), on, &d);
        symx_assert(ures == (d.failAt == static_cast<int>(want.size())), "unpooling fails with a callback");
        if (ures) symx_assert(d.all == text(want), "every result is passed on");
        else symx_assert(clingo_error_code() == d.code && std::string(clingo_error_message()) == "stop here" && d.calls == d.failAt + 1, "unpooling stops with the call that fails");
        symx_assert(last->refCount() == refs, "references after unpooling");
    }
    symx_reach("end");
}
int main() {
    switch ((int)symx_param("mode", 0)) {
        case 0: attributes(); break;
        case 1: lists(); break;
        case 2: buffers(); break;
        case 3: building(); break;
        default: callbacks();
    }
}
