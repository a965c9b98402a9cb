// describes the models of a recorded ground program including its theory atoms
#pragma once
#include "asp.hh"
namespace H {
inline std::string termStr(Recorded const &r, Id_t t) {
    auto &x = r.tterms.at(t);
    if (x.kind == 0) return std::to_string(x.num);
    if (x.kind == 1) return x.name;
    std::string s = x.cid >= 0 ? termStr(r, (Id_t)x.cid) : std::to_string(x.cid);
    s += "(";
    for (auto a : x.args) s += termStr(r, a) + ",";
    return s + ")";
}
// everything about a model but its multiplicity
inline std::string model(Recorded const &r, Models const &m, SymVec const &syms) {
    std::string s;
    for (auto &x : syms) s += m.shown(x) ? "1" : "0";
    std::set<int> prios;
    for (auto &c : r.mins) prios.insert(c.prio);
    for (auto p : prios) if (auto c = m.cost(p)) s += " " + std::to_string(p) + ":" + std::to_string(c);
    auto cond = [&](Lits const &b) { int v = 1; for (auto l : b) v &= m.flit(l); return v; };
    auto name = [&](Atom_t a) { for (auto &o : r.outs) if (!o.cond && o.atom == a) return str(o.sym); return std::string("?"); };
    std::multiset<std::string> st;
    // node numbers depend on the order of the statements
    std::map<int, std::pair<std::set<int>, std::set<int>>> deg;
    for (auto &e : r.edges) if (cond(e.body)) { deg[e.u].second.insert(e.v); deg[e.v].first.insert(e.u); }
    for (auto &d : deg) {
        std::multiset<size_t> out;
        for (auto v : d.second.second) out.insert(v == d.first ? 99 : deg[v].second.size() * 10 + deg[v].first.size());
        std::string x = "n" + std::to_string(d.second.first.size()) + ":";
        for (auto o : out) x += std::to_string(o) + ",";
        st.insert(x);
    }
    for (auto &h : r.heus) if (cond(h.body)) st.insert("h" + name(h.atom) + "," + std::to_string(h.type) + "," + std::to_string(h.bias) + "," + std::to_string(h.prio));
    for (auto &t : r.tatoms) {
        if (t.atom && !m.val[m.idx.at(t.atom)]) continue;
        std::string x = (t.atom ? "&" : "&!") + termStr(r, t.term) + "{";
        std::set<std::string> es;
        for (auto e : t.elems) { auto &z = r.telems.at(e); if (!cond(z.cond)) continue; std::string q; for (auto y : z.terms) q += termStr(r, y) + ","; es.insert(q); }
        for (auto &e : es) x += e + ";";
        x += "}";
        if (t.guard) x += termStr(r, t.op) + termStr(r, t.rhs);
        st.insert(x);
    }
    for (auto &x : st) s += " " + x;
    return s;
}
inline std::map<std::string, int> models(Recorded &r, SymVec const &syms) {
    // atoms of theory atoms that no rule defines are free, like external ones
    for (auto &t : r.tatoms) {
        bool def = !t.atom;
        for (auto &x : r.rules) for (auto h : x.head) def = def || h == t.atom;
        if (!def) r.exts.push_back({t.atom, 0});
    }
    for (auto &e : r.telems) for (auto l : e.second.cond) { bool k = false; for (auto &x : r.rules) for (auto h : x.head) k = k || (int)h == std::abs(l); if (!k) r.exts.push_back({(Atom_t)std::abs(l), 2}); }
    std::map<std::string, int> res;
    Models m(r);
    m.each([&] { if (m.valid) ++res[model(r, m, syms)]; });
    return res;
}
}
