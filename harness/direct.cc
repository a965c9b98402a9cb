// directives: show, project, external, heuristic, edge, defined
#include "asp.hh"
#include "facts.hh"
using namespace H;
int main() {
    int n = (int)symx_param("n", 3), D = 3;
    static const char *rules[] = {
        /* 0*/ "{h(0..2)}. #show. #show f(X) : h(X), r(X,_).",
        /* 1*/ "{h(0..2)}. #show h/1. g(X) :- h(X).",
        /* 2*/ "{h(0..2)}. #show h/1. #show (X,Y) : r(X,Y), not h(X).",
        /* 3*/ "{h(0..2)}. #show h/1. #show h(X) : r(X,_).",
        /* 4*/ "{h(0..2)}. #show. #show X+Y : r(X,Y), h(X).",
        /* 5*/ "{h(0..2)}. #show X : r(X,_). #show X : h(X).",
        /* 6*/ "{h(0..2)}. #project h(X) : r(X,_).",
        /* 7*/ "h(0). {h(X)} :- r(X,_). #project h/1.",
        /* 8*/ "#external h(X) : r(X,_). g(X) :- h(X).",
        /* 9*/ "v(0,true). v(1,free). v(2,release). #external h(X,Y) : r(X,Y), v(Y,V). [V]",
        /*10*/ "{h(0..2)}. #heuristic h(X) : r(X,Y). [Y@X,M]",
        /*11*/ "{h(0..2)}. #heuristic h(X) : r(X,Y), not h(Y). [X-Y,M]",
        /*12*/ "{g(X,Y) : r(X,Y)}. #edge (X,Y) : g(X,Y).",
        /*13*/ "{g(X,Y) : r(X,Y)}. #edge (X,f(Y);X,Y) : g(X,Y).",
        /*14*/ "#defined q/1. p(X) :- q(X). p(X) :- r(X,X).",
        /*15*/ "p(X) :- q(X). p(X) :- r(X,X).",
        /*16*/ "#show -h/1. {-h(0..2); h(0)}.",
        /*17*/ "#external h(X) : r(X,_). [true] h(X) :- r(X,X).",
    };
    int c = parts("case", 18), rev = pick("rev", 2), mod = 0;
    static const char *mods[] = {"level", "sign", "factor", "init", "true", "false"};
    if (c == 10 || c == 11) mod = pick("mod", 6);
    int x[8], y[8];
    SymVec par;
    std::string ps, facts;
    auto S = [](int i) { return std::to_string(i); };
    for (int i = 0; i < n; ++i) {
        x[i] = symx_int(("x" + S(i)).c_str(), 0, D - 1);
        y[i] = symx_int(("y" + S(i)).c_str(), 0, D - 1);
        par.push_back(num(x[i])); par.push_back(num(y[i]));
        ps += (i ? "," : "") + std::string("x") + S(i) + ",y" + S(i);
        facts += "r(x" + S(i) + ",y" + S(i) + "). ";
    }
    std::string prg = "#program base(" + ps + "). ", rule = rules[c];
    if (mod || c == 10 || c == 11) { auto k = rule.find(",M]"); rule = rule.substr(0, k + 1) + mods[mod] + "]"; }
    prg = rev ? prg + rule + " " + facts : prg + facts + rule;
    symx_observe("rules", rule);
    Session s;
    bool ok = s.run(prg, par);
    symx_assert(ok, "accepted");
    Recorded const &r = s.rec;
    int E[4][4] = {}, src[4] = {}, dst[4] = {};
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) for (int k = 0; k < n; ++k) E[i][j] |= (x[k] == i) & (y[k] == j);
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { src[i] |= E[i][j]; dst[j] |= E[i][j]; }
    auto symOf = [&](Atom_t a) { for (auto &o : r.outs) if (!o.cond && o.atom == a) return o.sym; return Symbol(); };
    auto factAtom = [&](Atom_t a) { for (auto &z : r.rules) if (!z.choice && z.head.size() == 1 && z.head[0] == a && z.body.empty()) return 1; return 0; };
    SymVec hs;
    for (int i = 0; i < D; ++i) hs.push_back(fun("h", {num(i)}));
    // every model shows exactly the expected symbols; the atoms h are identified by their choice rules
    std::vector<Atom_t> hat;
    auto shows = [&](SymVec const &all, std::function<int(unsigned, size_t)> f, unsigned nc) {
        int known = 1;
        for (auto &o : r.outs) { int k = 0; for (auto &a : all) k |= o.sym == a; known &= k; }
        symx_assert(known, "nothing-else-shown");
        Models m(r);
        // choice atoms in the order of their rules are h(0), h(1), h(2)
        std::vector<int> cs;
        for (auto &z : r.rules) if (z.choice) for (auto a : z.head) cs.push_back((int)a);
        symx_assert(cs.size() == nc, "choice-atoms");
        int bad = 0, cnt = 0;
        if (cs.size() == nc) m.each([&] {
            unsigned sub = 0;
            for (size_t i = 0; i < nc; ++i) sub |= (unsigned)(symx_concrete(m.flit(cs[i])) ? 1u : 0u) << i;
            cnt += m.valid;
            for (size_t i = 0; i < all.size(); ++i) bad |= m.valid & (m.shown(all[i]) ^ f(sub, i));
        });
        symx_assert(bad == 0, "shown");
        symx_assert(cnt == 1 << nc, "models");
    };
    auto H = [](unsigned m, size_t i) { return (int)((m >> i) & 1); };
    switch (c) {
        case 0: shows({fun("f", {num(0)}), fun("f", {num(1)}), fun("f", {num(2)})}, [&](unsigned m, size_t i) { return H(m, i) & src[i]; }, 3); break;
        case 1: shows(hs, H, 3); break;
        case 2: {
            SymVec a = hs;
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) a.push_back(fun("", {num(i), num(j)}));
            shows(a, [&](unsigned m, size_t k) { if (k < 3) return H(m, k); k -= 3; return E[k / 3][k % 3] & (1 - H(m, k / 3)); }, 3);
            break;
        }
        case 3: shows(hs, [&](unsigned m, size_t i) { return H(m, i) | src[i]; }, 3); break;
        case 4: {
            SymVec a;
            for (int i = 0; i <= 4; ++i) a.push_back(num(i));
            shows(a, [&](unsigned m, size_t k) { int v = 0; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (i + j == (int)k) v |= E[i][j] & H(m, i); return v; }, 3);
            break;
        }
        case 5: {
            SymVec a = hs;
            for (int i = 0; i < D; ++i) a.push_back(num(i));
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) a.push_back(fun("r", {num(i), num(j)}));
            shows(a, [&](unsigned m, size_t k) { if (k < 3) return H(m, k); k -= 3; if (k < 3) return H(m, k) | src[k]; k -= 3; return E[k / 3][k % 3]; }, 3);
            break;
        }
        case 6: case 7: {
            int got[4] = {}, dup = 0, okn = 1;
            symx_assert(r.projected || c == 6 , "projected");
            for (size_t i = 0; i < r.project.size(); ++i) {
                Symbol z = symOf(r.project[i]);
                int f = factAtom(r.project[i]);
                for (int k = 0; k < D; ++k) { int e = z == hs[k]; f |= e; got[k] += e; }
                okn &= f;
            }
            symx_assert(okn, "known-atom");
            // a fact may be projected or not
            int good = 1;
            for (int k = 0; k < D; ++k) good &= c == 7 && k == 0 ? 1 : got[k] == src[k];
            symx_assert(good, "project");
            break;
        }
        case 8: case 9: case 17: {
            int good = 1;
            for (auto &e : r.exts) {
                Symbol z = symOf(e.atom);
                int f = factAtom(e.atom);
                for (int i = 0; i < D; ++i) {
                    if (c == 8) f |= (z == hs[i]) & src[i] & (e.val == 2);
                    else if (c == 17) f |= (z == hs[i]) & src[i] & (1 - E[i][i]) & (e.val == 1);
                    else for (int j = 0; j < D; ++j) f |= (z == fun("h", {num(i), num(j)})) & E[i][j] & (e.val == (j == 0 ? 1 : j == 1 ? 0 : 3));
                }
                // the external may not be listed under its name if it became a fact
                good &= f;
            }
            symx_assert(good, "external-sound");
            int comp = 1;
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
                Symbol w = c == 9 ? fun("h", {num(i), num(j)}) : hs[i];
                int want = c == 9 ? E[i][j] : src[i], k = 0;
                if (c == 17) want &= 1 - E[i][i];
                for (auto &e : r.exts) k += symOf(e.atom) == w;
                comp &= (1 - want) | (k == 1);
            }
            symx_assert(comp, "external-complete");
            if (c == 8) {
                Models m(r);
                int bad = 0;
                m.each([&] { for (int i = 0; i < D; ++i) bad |= m.valid & m.shown(fun("g", {num(i)})); });
                symx_assert(bad == 0, "external-false");
                for (int i = 0; i < D; ++i) { int k = 0; for (auto &o : r.outs) k |= o.sym == fun("g", {num(i)}); symx_assert(k == src[i], "defined-from-external"); }
            }
            break;
        }
        case 10: case 11: {
            Models m(r);
            int bad = 0;
            m.each([&] {
                int h[3];
                for (int i = 0; i < D; ++i) h[i] = (int)symx_concrete(m.shown(hs[i]));
                // active modifiers
                std::vector<int> act;
                for (auto &z : r.heus) { int b = z.type == mod; for (auto l : z.body) b &= m.flit(l); act.push_back(b); }
                for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
                    int want = c == 10 ? E[i][j] : E[i][j] & (1 - h[j]), found = 0;
                    for (size_t k = 0; k < act.size(); ++k) {
                        auto &z = r.heus[k];
                        // no priority is passed on as 0
                        int bias = c == 10 ? j : i - j, prio = c == 10 ? i : 0;
                        found |= act[k] & (z.bias == bias) & ((int)z.prio == prio) & (symOf(z.atom) == hs[i]);
                    }
                    bad |= m.valid & want & (1 - found);
                }
                for (size_t k = 0; k < act.size(); ++k) {
                    auto &z = r.heus[k];
                    int f = 0;
                    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
                        int want = c == 10 ? E[i][j] : E[i][j] & (1 - h[j]);
                        int bias = c == 10 ? j : i - j, prio = c == 10 ? i : 0;
                        f |= want & (z.bias == bias) & ((int)z.prio == prio) & (symOf(z.atom) == hs[i]);
                    }
                    bad |= m.valid & act[k] & (1 - f);
                }
            });
            symx_assert(bad == 0, "heuristic");
            int ty = 1;
            for (auto &z : r.heus) ty &= z.type == mod;
            symx_assert(ty, "heuristic-type");
            break;
        }
        case 12: case 13: {
            // the condition tells which instance an edge belongs to
            struct N { Symbol s; int id; };
            std::vector<N> ns[2]; // for both orders of the edges of an instance
            int good = 1, cnt[4][4][2] = {};
            for (auto &e : r.edges) {
                symx_assert(e.body.size() == 1 && e.body[0] > 0, "edge-condition");
                if (e.body.size() != 1) continue;
                Symbol g = symOf(e.body[0]);
                symx_assert(isA(g, "g", 2), "edge-atom");
                if (!isA(g, "g", 2)) continue;
                int kind = 0;
                if (c == 13) for (auto &o : r.edges) { if (&o == &e) break; kind += o.body == e.body; }
                for (int k = 0; k < 2; ++k) {
                    ns[k].push_back({g.args()[0], e.u});
                    ns[k].push_back({c == 13 && kind == k ? fun("f", {g.args()[1]}) : g.args()[1], e.v});
                }
                for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) cnt[i][j][kind & 1] += (g.args()[0] == num(i)) & (g.args()[1] == num(j));
            }
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) good &= (cnt[i][j][0] == E[i][j]) & (cnt[i][j][1] == (c == 13 ? E[i][j] : 0));
            symx_assert(good, "edges");
            int inj = 0;
            for (int k = 0; k < 2; ++k) {
                int v = 1;
                for (auto &a : ns[k]) for (auto &b : ns[k]) v &= (a.s == b.s) == (a.id == b.id);
                inj |= v;
            }
            symx_assert(inj, "node-ids");
            break;
        }
        case 14: case 15: {
            Expect e;
            for (int i = 0; i < D; ++i) e.add({num(i)}, E[i][i]);
            checkFacts(r, "p", 1, e);
            int u = s.msgs.count[static_cast<int>(Warnings::AtomUndefined)];
            symx_assert(c == 14 ? u == 0 : u == 1, "undefined-atom-message");
            break;
        }
        case 16: {
            SymVec a;
            for (int i = 0; i < D; ++i) { Symbol z = num(i); a.push_back(Symbol::createFun("h", SymSpan{&z, 1}, true)); }
            int known = 1;
            for (auto &o : r.outs) { int k = 0; for (auto &z : a) k |= o.sym == z; known &= k; }
            symx_assert(known && r.outs.size() == 3, "signed-show");
            break;
        }
    }
    symx_reach("end");
}
