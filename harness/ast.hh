// Syntax trees of the C interface: building them from text and reading them back.
#pragma once
#include "asp.hh"
#include <clingo/astv2.hh>
namespace H {
using Input::AST; using Input::SAST;
typedef std::vector<SAST> Trees;
struct TreeReader {
    Msgs msgs;
    Logger log;
    NullBackend nb;
    Trees trees;
    bool incmode = false;
    TreeReader() : log([this](Warnings c, char const *m) { ++msgs.count[static_cast<int>(c)]; msgs.last = m; msgs.all += m; }, 1000) {}
    bool read(std::string const &s) {
        auto b = Input::build([this](SAST a) { trees.push_back(std::move(a)); });
        Input::NonGroundParser p(*b, nb, incmode);
        p.disable_aspif();
        p.pushStream("<string>", gringo_make_unique<std::stringstream>(s), log);
        p.parse(log);
        return !log.hasError();
    }
};
inline std::string text(SAST const &a) { std::ostringstream o; o << *a; return o.str(); }
inline std::string text(Trees const &t) { std::string r; for (auto &a : t) { r += text(a); r += "\n"; } return r; }
// calls a function for the trees right below a tree
template <class F>
void below(AST const &a, F f) {
    for (size_t i = 0; i < g_clingo_ast_attribute_names.size; ++i) {
        auto n = static_cast<clingo_ast_attribute_e>(i);
        if (!a.hasValue(n)) continue;
        auto &v = a.value(n);
        if (auto *x = mpark::get_if<SAST>(&v)) f(**x);
        else if (auto *x = mpark::get_if<Input::OAST>(&v)) { if (x->ast.get()) f(*x->ast); }
        else if (auto *x = mpark::get_if<AST::ASTVec>(&v)) for (auto &y : *x) f(*y);
    }
}
inline bool before(unsigned l1, unsigned c1, unsigned l2, unsigned c2) { return l1 < l2 || (l1 == l2 && c1 <= c2); }
// checks that locations run from left to right and lie within those of the trees above
inline std::string badLocation(AST const &a, Location const *up = nullptr) {
    std::string r;
    if (a.hasValue(clingo_ast_attribute_location)) {
        auto &l = mpark::get<Location>(a.value(clingo_ast_attribute_location));
        bool ok = before(l.beginLine, l.beginColumn, l.endLine, l.endColumn);
        if (ok && up) ok = before(up->beginLine, up->beginColumn, l.beginLine, l.beginColumn) && before(l.endLine, l.endColumn, up->endLine, up->endColumn);
        if (!ok) { std::ostringstream o; o << a << " at " << l; if (up) o << " in " << *up; return o.str(); }
        // those of conditional literals and theory atoms only span what is conditional and the name
        if (a.type() != clingo_ast_type_conditional_literal && a.type() != clingo_ast_type_theory_atom) up = &l;
    }
    below(a, [&](AST const &x) { if (r.empty()) r = badLocation(x, up); });
    return r;
}
// adds trees to a session in place of text
inline bool addTrees(Session &x, Trees const &t) {
    for (auto &a : t) Input::parse(*x.pb, x.log, *a);
    return !x.log.hasError();
}
inline bool groundIt(Session &x) {
    if (!x.prepare()) return false;
    x.begin();
    x.groundParts({{"base", {}}});
    x.end();
    return true;
}
// programs with holes: a letter with a tick in front stands for a choice; pieces of a program are "`X"
struct Holes {
    char kind; std::vector<std::string> vals;
};
inline std::vector<Holes> const &holes() {
    static std::vector<Holes> h{
        {'r', {"<", "<=", ">", ">=", "=", "!="}},
        {'s', {"", "not ", "not not "}},
        {'n', {"", "not "}},
        {'a', {"#count", "#sum", "#sum+", "#min", "#max"}},
        {'o', {"+", "-", "*", "/", "\\", "**", "&", "?", "^", "..", ";", ","}},
        {'u', {"", "-", "~"}},
        {'e', {"", "0;", "0:p;", "0,1:;"}},
        {'v', {"true", "false", "free", "release"}},
        {'d', {"", "[default]", "[override]"}},
        {'h', {"sign", "level", "true", "false", "factor", "init"}},
    };
    return h;
}
// fills the holes: at most "vary" of them with any value, the others with their first
inline std::string fill(std::string const &s) {
    int vary = (int)symx_param("vary", 2), n = 0;
    for (auto c : s) n += c == '`';
    std::vector<int> free;
    for (int i = 0, lo = 0; i < vary && lo < n; ++i) {
        int k = lo + pick(("hole" + std::to_string(i)).c_str(), n - lo);
        free.push_back(k);
        lo = k + 1;
    }
    std::string r;
    int k = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '`') { r += s[i]; continue; }
        char c = s[++i];
        bool f = std::find(free.begin(), free.end(), k) != free.end();
        std::string nm(1, c);
        nm += std::to_string(k++);
        if (c == 'N') { r += f ? static_cast<char>(symx_param("pin", 0) ? '0' + symx_choose(nm.c_str(), 0, 3) : symx_byte(nm.c_str(), '0', '9')) : '1'; continue; }
        for (auto &h : holes()) if (h.kind == c) r += h.vals[f ? pick(nm.c_str(), static_cast<int>(h.vals.size())) : 0];
    }
    return r;
}
} // namespace H
