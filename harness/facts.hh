// Helpers for programs whose ground result is a set of facts.
#pragma once
#include "ground.hh"
namespace H {
inline bool isA(Symbol s, char const *name, size_t ar) { return s.type() == SymbolType::Fun && strcmp(s.name().c_str(), name) == 0 && s.args().size == ar; }
// is the output statement a fact in the recorded program?
inline bool isFact(Recorded const &r, ROut const &o) {
    if (o.cond) return o.body.empty();
    if (!o.atom) return true;
    for (auto &x : r.rules) if (!x.choice && x.head.size() == 1 && x.head[0] == o.atom && x.body.empty()) return true;
    return false;
}
inline SymVec shownSyms(Recorded const &r, char const *name, size_t ar) {
    SymVec v;
    for (auto &o : r.outs) if (isA(o.sym, name, ar)) v.push_back(o.sym);
    return v;
}
inline int eq(Symbol a, Symbol b) { return a.rep() == b.rep(); }
// expected set of symbols, each with a condition under which it is expected
struct Expect {
    std::vector<std::pair<SymVec, int>> e;
    void add(SymVec const &args, int c = 1) { e.emplace_back(args, c); }
};
inline int eqArgs(SymVec const &a, SymSpan b) {
    int r = a.size() == b.size;
    for (size_t i = 0; i < a.size() && i < b.size; ++i) r &= eq(a[i], b[i]);
    return r;
}
inline int eqArgs(SymSpan a, SymSpan b) {
    int r = a.size == b.size;
    for (size_t i = 0; i < a.size && i < b.size; ++i) r &= eq(a[i], b[i]);
    return r;
}
// the shown symbols of the predicate are exactly the expected ones, each once, and all are facts
inline void checkFacts(Recorded const &r, char const *name, size_t ar, Expect const &x) {
    SymVec s = shownSyms(r, name, ar);
    int sound = 1, complete = 1, unique = 1;
    for (size_t i = 0; i < s.size(); ++i) {
        int f = 0;
        for (auto &e : x.e) f |= e.second & eqArgs(e.first, s[i].args());
        sound &= f;
        for (size_t j = 0; j < i; ++j) unique &= 1 - eqArgs(s[i].args(), s[j].args());
    }
    for (auto &e : x.e) {
        int f = 0;
        for (auto &y : s) f |= eqArgs(e.first, y.args());
        complete &= (1 - e.second) | f;
    }
    for (auto &o : r.outs) if (isA(o.sym, name, ar)) symx_assert(isFact(r, o), "derived-as-fact");
    symx_assert(sound, "sound");
    symx_assert(complete, "complete");
    symx_assert(unique, "unique");
}
} // namespace H
