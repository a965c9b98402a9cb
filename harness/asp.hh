// Evaluates a recorded ground program: stable models over all guesses, weights and bounds may be symbolic.
// Values are 0/1 integers computed without branching on symbolic data.
#pragma once
#include "ground.hh"
namespace H {
struct Models {
    struct L { int at; bool neg; int w; };
    struct CR { bool choice, weighted, disj; int bound; std::vector<int> head; std::vector<L> body; };
    Recorded const &r;
    std::vector<int> guess;              // atoms guessed (choice heads, disjunctive heads, externals, atoms in negative loops)
    std::vector<int> gpos;               // atom -> index into guess or -1
    std::vector<Atom_t> atoms;           // all atoms
    std::map<Atom_t, int> idx;
    std::vector<CR> rules;
    std::vector<char> g;                 // current guess
    std::vector<int> val, cand;          // least model of the reduct, candidate
    bool sub = false;                    // evaluate negative literals in cand
    int valid = 0;
    bool disj = false;
    std::vector<int> dheads;             // atoms in proper disjunctions
    std::map<int, int> extVal;           // externals: value type of the last statement
    std::vector<std::vector<size_t>> strata; // rules in evaluation order
    int at(Atom_t a) { auto x = idx.emplace(a, (int)atoms.size()); if (x.second) atoms.push_back(a); return x.first->second; }
    Models(Recorded const &r) : r(r) {
        for (auto &x : r.rules) {
            CR c{x.choice, x.weighted, !x.choice && x.head.size() > 1, x.bound, {}, {}};
            for (auto h : x.head) c.head.push_back(at(h));
            for (auto &l : x.body) c.body.push_back({at(std::abs(l.first)), l.first < 0, l.second});
            disj = disj || c.disj;
            rules.push_back(std::move(c));
        }
        for (auto &o : r.outs) { if (!o.cond) { if (o.atom) at(o.atom); } else for (auto l : o.body) at(std::abs(l)); }
        for (auto &m : r.mins) for (auto &l : m.body) at(std::abs(l.first));
        for (auto &e : r.exts) extVal[at(e.atom)] = e.val;
        size_t n = atoms.size();
        std::vector<std::vector<char>> dep(n, std::vector<char>(n, 0));
        for (auto &x : rules) for (auto h : x.head) { for (auto &l : x.body) dep[h][l.at] = 1; if (x.disj) for (auto k : x.head) if (k != h) dep[h][k] = 1; }
        for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < n; ++i) if (dep[i][k]) for (size_t j = 0; j < n; ++j) if (dep[k][j]) dep[i][j] = 1;
        std::vector<char> keep(n, 0), dh(n, 0), head(n, 0);
        std::map<size_t, std::vector<size_t>> lev;
        for (size_t i = 0; i < rules.size(); ++i) {
            auto &x = rules[i];
            std::set<size_t> ls;
            for (auto h : x.head) {
                head[h] = 1;
                if (x.choice || x.disj) keep[h] = 1;
                if (x.disj) dh[h] = 1;
                for (auto &l : x.body) if (l.neg && (dep[l.at][h] || l.at == h)) keep[l.at] = 1;
                // the size of the dependencies orders the components
                size_t c = dep[h][h] ? 0 : 1;
                for (size_t j = 0; j < n; ++j) c += dep[h][j];
                ls.insert(c);
            }
            for (auto m : ls) lev[m].push_back(i);
        }
        for (auto &l : lev) strata.push_back(l.second);
        // free (0) and true (1) externals are guessed, too
        for (auto &e : extVal) if (e.second <= 1) { keep[e.first] = 1; head[e.first] = 1; }
        gpos.assign(n, -1);
        for (size_t i = 0; i < n; ++i) if (keep[i] && head[i]) { gpos[i] = (int)guess.size(); guess.push_back((int)i); if (dh[i]) dheads.push_back((int)i); }
        g.resize(guess.size());
    }
    int gval(int a) const { return gpos[a] < 0 ? 0 : g[gpos[a]]; }
    // truth of a literal in the current candidate
    int lit(L const &l) const {
        if (!l.neg) return val[l.at];
        return 1 - (gpos[l.at] >= 0 ? g[gpos[l.at]] : sub ? cand[l.at] : val[l.at]);
    }
    int flit(Lit_t l) const { return l > 0 ? val[idx.at(l)] : 1 - val[idx.at(-l)]; }
    int bodyVal(CR const &x) const {
        if (!x.weighted) { int v = 1; for (auto &l : x.body) v &= lit(l); return v; }
        int64_t s = 0;
        for (auto &l : x.body) s += (int64_t)l.w * lit(l);
        return s >= x.bound;
    }
    // least model of the non-disjunctive rules given disjunctive atoms as facts
    void least(std::vector<int> const &facts) {
        val.assign(atoms.size(), 0);
        for (auto a : facts) val[a] = 1;
        for (auto &e : extVal) if (e.second <= 1) val[e.first] = e.second == 0 ? gval(e.first) : 1;
        for (auto &st : strata)
            for (int round = 0; round <= (int)st.size() + 1; ++round) {
                bool ch = false;
                for (auto i : st) {
                    auto &x = rules[i];
                    if (x.disj) continue;
                    int b = bodyVal(x);
                    for (auto h : x.head) {
                        int n = x.choice ? (b & gval(h)) : b;
                        int &v = val[h];
                        int o = v;
                        v = v | n;
                        if (symx_is_symbolic_((uint64_t)v) || symx_is_symbolic_((uint64_t)o) || v != o) ch = true;
                    }
                }
                if (!ch || st.size() == 1) break;
            }
    }
    int disjHold() const {
        int ok = 1;
        for (auto &x : rules) {
            if (!x.disj) continue;
            int h = 0;
            for (auto a : x.head) h |= val[a];
            ok &= (1 - bodyVal(x)) | h;
        }
        return ok;
    }
    void eval() {
        std::vector<int> d;
        for (auto a : dheads) if (gval(a)) d.push_back(a);
        sub = false;
        least(d);
        valid = disjHold();
        for (auto a : guess) valid &= (val[a] == gval(a));
        for (auto &x : rules) if (x.head.empty() && !x.choice) valid &= 1 - bodyVal(x);
        if (!disj || (!symx_is_symbolic_((uint64_t)valid) && !valid)) return;
        cand = val;
        sub = true;
        int minimal = 1;
        for (unsigned m = 0; m + 1 < (1u << d.size()); ++m) {
            std::vector<int> f;
            for (size_t i = 0; i < d.size(); ++i) if ((m >> i) & 1) f.push_back(d[i]);
            least(f);
            int same = 1;
            for (auto a : d) same &= val[a];
            minimal &= same | (1 - disjHold());
        }
        valid &= minimal;
        val = cand;
        sub = false;
    }
    // truth of a shown symbol
    int shown(Symbol s) const {
        int v = 0;
        for (auto &o : r.outs) {
            if (o.sym != s) continue;
            if (!o.cond) v |= o.atom ? val[idx.at(o.atom)] : 1;
            else { int b = 1; for (auto l : o.body) b &= flit(l); v |= b; }
        }
        return v;
    }
    // sum of minimize literals at a priority
    int64_t cost(int prio) const {
        int64_t s = 0;
        for (auto &m : r.mins) if (m.prio == prio) for (auto &l : m.body) s += (int64_t)l.second * flit(l.first);
        return s;
    }
    template <class F> void each(F f) {
        size_t n = guess.size();
        if (n > 16) { symx_assert(false, "harness: too many guess atoms"); return; }
        for (unsigned m = 0; m < (1u << n); ++m) {
            for (size_t i = 0; i < n; ++i) g[i] = (m >> i) & 1;
            eval();
            if (!symx_is_symbolic_((uint64_t)valid) && !valid) continue;
            f();
        }
    }
};
// An independent description of a ground program over a fixed list of symbols; rules have conditions that may be symbolic.
struct Oracle {
    struct Rule { int en; std::vector<int> head; bool choice; std::vector<int> pos, neg, nn; };
    SymVec atoms;
    std::vector<Rule> rules;
    std::vector<std::function<int(unsigned)>> tests; // further conditions on a candidate
    int atom(Symbol s) {
        for (size_t i = 0; i < atoms.size(); ++i) if (atoms[i].rep() == s.rep()) return (int)i;
        atoms.push_back(s);
        return (int)atoms.size() - 1;
    }
    void rule(int en, std::vector<int> head, std::vector<int> pos = {}, std::vector<int> neg = {}, std::vector<int> nn = {}) { rules.push_back({en, head, false, pos, neg, nn}); }
    void choice(int en, int head, std::vector<int> pos = {}, std::vector<int> neg = {}, std::vector<int> nn = {}) { rules.push_back({en, {head}, true, pos, neg, nn}); }
    int body(Rule const &r, unsigned cand, std::vector<int> const &lm) const {
        for (auto a : r.neg) if ((cand >> a) & 1) return 0;
        for (auto a : r.nn) if (!((cand >> a) & 1)) return 0;
        int b = r.en;
        for (auto a : r.pos) b &= lm[a];
        return b;
    }
    // is the candidate a model of the reduct (of itself or another set)?
    int closed(unsigned cand, unsigned set) const {
        int ok = 1;
        std::vector<int> v;
        for (size_t i = 0; i < atoms.size(); ++i) v.push_back((set >> i) & 1);
        for (auto &r : rules) {
            int b = body(r, cand, v);
            if (r.choice && !((cand >> r.head[0]) & 1)) continue;
            int h = 0;
            for (auto x : r.head) h |= v[x];
            ok &= (1 - b) | h;
        }
        return ok;
    }
    int stable(unsigned cand) const {
        int t = 1;
        for (auto &f : tests) t &= f(cand);
        return stable_(cand) & t;
    }
    int stable_(unsigned cand) const {
        bool disj = false;
        for (auto &r : rules) disj = disj || r.head.size() > 1;
        if (disj) {
            int st = closed(cand, cand);
            for (unsigned sub = (cand - 1) & cand; cand; sub = (sub - 1) & cand) {
                st &= 1 - closed(cand, sub);
                if (!sub) break;
            }
            return st;
        }
        std::vector<int> lm(atoms.size(), 0);
        for (size_t n = 0; n <= atoms.size(); ++n)
            for (auto &r : rules) {
                if (r.head.empty()) continue;
                if (r.choice && !((cand >> r.head[0]) & 1)) continue;
                lm[r.head[0]] |= body(r, cand, lm);
            }
        int st = 1;
        for (size_t i = 0; i < atoms.size(); ++i) st &= lm[i] == (int)((cand >> i) & 1);
        for (auto &r : rules) if (r.head.empty()) st &= 1 - body(r, cand, lm);
        return st;
    }
};
// every visible symbol is one of the oracle's and the stable models correspond one to one
inline void checkModels(Recorded const &r, Oracle const &o, std::vector<char const *> const &ignore = {}) {
    size_t n = o.atoms.size();
    int known = 1;
    for (auto &x : r.outs) {
        bool ig = false;
        for (auto *i : ignore) if (x.sym.type() == SymbolType::Fun && strcmp(x.sym.name().c_str(), i) == 0) ig = true;
        if (ig) continue;
        int f = 0;
        for (auto &a : o.atoms) f |= a == x.sym;
        // a symbol that the oracle does not have may be listed as long as it is never true (checked below)
        known &= f;
    }
    symx_assert(known, "known-symbols");
    std::vector<int> count(1u << n, 0);
    Models m(r);
    m.each([&] {
        unsigned s = 0;
        for (size_t i = 0; i < n; ++i) s |= (unsigned)(symx_concrete(m.shown(o.atoms[i])) ? 1u : 0u) << i;
        count[s] += m.valid;
    });
    int sound = 1, complete = 1;
    for (unsigned s = 0; s < (1u << n); ++s) {
        int e = o.stable(s);
        sound &= (count[s] <= e);
        complete &= (count[s] >= e);
    }
    symx_assert(sound, "models-sound");
    symx_assert(complete, "models-complete");
}
// exactly one stable model per subset of the choice symbols, in which every target symbol has the expected truth value
template <class F> void checkDefined(Recorded const &r, SymVec const &choices, SymVec const &targets, F expect) {
    Models m(r);
    size_t n = choices.size();
    std::vector<int> count(1u << n, 0);
    int bad = 0;
    m.each([&] {
        unsigned s = 0;
        for (size_t i = 0; i < n; ++i) { int v = m.shown(choices[i]); s |= (unsigned)(symx_concrete(v) ? 1u : 0u) << i; }
        count[s] += m.valid;
        std::vector<int> e = expect(s);
        for (size_t i = 0; i < targets.size(); ++i) {
            int t = m.shown(targets[i]);
            bad |= m.valid & (t ^ e[i]);
        }
    });
    symx_assert(bad == 0, "target-value");
    int one = 1;
    for (unsigned s = 0; s < (1u << n); ++s) one &= count[s] == 1;
    symx_assert(one, "one-model-per-choice");
}
} // namespace H
