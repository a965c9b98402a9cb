// conditional literals in bodies and heads, disjunctions
#include "asp.hh"
#include "facts.hh"
using namespace H;
int main() {
    int n = (int)symx_param("n", 3), D = 3;
    static const char *rules[] = {
        /* 0*/ "{h(0..2)}. p(0) :- h(Y) : r(0,Y).",
        /* 1*/ "{h(0..2)}. p(X) :- e(X), h(Y) : r(X,Y), Y != X.",
        /* 2*/ "{h(0..2)}. p(0) :- not h(Y) : r(0,Y).",
        /* 3*/ "{h(0..2);q(0);q(1)}. p(X) :- h(X) : q(X), r(X,_); e(X).",
        /* 4*/ "n(0..2). p(X) :- n(X), p(Y) : r(X,Y).",
        /* 5*/ "{b}. h(Y) : r(0,Y) :- b.",
        /* 6*/ "h(X) | h(Y) :- r(X,Y).",
        /* 7*/ "h(0) | h(1). h(X) :- r(X,Y), h(Y).",
        /* 8*/ "{q;b}. h(0) : q, r(0,_); h(1) :- b.",
        /* 9*/ "{h(0..2)}. p(X) :- e(X), #false : h(Y), r(X,Y).",
        /*10*/ "{h(0..2);q(0);q(1)}. p(X) :- e(X), h(Y) : r(X,Y), not q(Y).",
        /*11*/ "h(X) | -h(X) :- r(X,_). -h(Y) :- h(X), r(X,Y), X != Y.",
        /*12*/ "{h(0..2)}. p(X) :- e(X); h(Y) : r(X,Y); not h(Z) : r(Z,X).",
        /*13*/ "h(X) : r(X,_), not e(X); q :- e(1).",
        /*14*/ "{h(0..2)}. p(0) :- not not h(Y) : r(Y,_), r(_,Y).",
        /*15*/ "{h(0..2)}. p(X) :- e(X), h(X) : h(Y), r(X,Y).",
        /*16*/ "h(X) | h(Y) | h(2) :- r(X,Y), not q(X). q(0) :- h(1).",
        /*17*/ "{b}. h(Y) : r(0,Y); not b :- e(0).",
    };
    int c = parts("case", 18), rev = pick("rev", 2);
    int x[8], y[8];
    SymVec par;
    std::string ps, facts;
    auto S = [](int i) { return std::to_string(i); };
    for (int i = 0; i < n; ++i) {
        x[i] = symx_int(("x" + S(i)).c_str(), 0, D - 1);
        y[i] = symx_int(("y" + S(i)).c_str(), 0, D - 1);
        par.push_back(num(x[i])); par.push_back(num(y[i]));
        ps += (i ? "," : "") + std::string("x") + S(i) + ",y" + S(i);
        facts += "r(x" + S(i) + ",y" + S(i) + "). ";
    }
    facts += "e(x0). ";
    std::string prg = "#program base(" + ps + "). ";
    prg = rev ? prg + rules[c] + " " + facts : prg + facts + rules[c];
    symx_observe("rules", rules[c]);
    Session s;
    bool ok = s.run(prg, par);
    symx_assert(ok, "accepted");
    int E[4][4] = {}, ex[4] = {}, src[4] = {}, dst[4] = {};
    for (int i = 0; i < D; ++i) { ex[i] = x[0] == i; for (int j = 0; j < D; ++j) for (int k = 0; k < n; ++k) E[i][j] |= (x[k] == i) & (y[k] == j); }
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { src[i] |= E[i][j]; dst[j] |= E[i][j]; }
    Oracle o;
    auto h = [&](int i) { return o.atom(fun("h", {num(i)})); };
    auto q = [&](int i) { return o.atom(fun("q", {num(i)})); };
    auto nh = [&](int i) { Symbol a = num(i); return o.atom(Symbol::createFun("h", SymSpan{&a, 1}, true)); };
    SymVec ch, tg;
    for (int i = 0; i < D; ++i) { ch.push_back(fun("h", {num(i)})); tg.push_back(fun("p", {num(i)})); }
    if (c == 3 || c == 10) { ch.push_back(fun("q", {num(0)})); ch.push_back(fun("q", {num(1)})); }
    auto def = [&](std::function<int(unsigned, int)> f) {
        checkDefined(s.rec, ch, tg, [&](unsigned m) { std::vector<int> r; for (int i = 0; i < D; ++i) r.push_back(f(m, i)); return r; });
    };
    auto H = [](unsigned m, int i) { return (int)((m >> i) & 1); };
    auto Q = [](unsigned m, int i) { return i > 1 ? 0 : (int)((m >> (3 + i)) & 1); };
    std::vector<char const *> ign{"r", "e", "n"};
    switch (c) {
        case 0: def([&](unsigned m, int i) { int v = i == 0; for (int j = 0; j < D; ++j) v &= (1 - E[0][j]) | H(m, j); return v; }); break;
        case 1: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) if (j != i) v &= (1 - E[i][j]) | H(m, j); return v; }); break;
        case 2: def([&](unsigned m, int i) { int v = i == 0; for (int j = 0; j < D; ++j) v &= (1 - E[0][j]) | (1 - H(m, j)); return v; }); break;
        case 3: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) if (j == i) v &= (1 - (Q(m, j) & src[j])) | H(m, j); return v; }); break;
        case 4: {
            int p[4] = {};
            for (int r = 0; r < D; ++r) for (int i = 0; i < D; ++i) { int v = 1; for (int j = 0; j < D; ++j) v &= (1 - E[i][j]) | p[j]; p[i] |= v; }
            // the result need not be simplified to facts
            checkDefined(s.rec, {}, tg, [&](unsigned) { return std::vector<int>(p, p + D); });
            break;
        }
        case 9: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) v &= 1 - (E[i][j] & H(m, j)); return v; }); break;
        case 10: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) v &= (1 - E[i][j]) | Q(m, j) | H(m, j); return v; }); break;
        case 12: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) v &= ((1 - E[i][j]) | H(m, j)) & ((1 - E[j][i]) | (1 - H(m, j))); return v; }); break;
        case 14: def([&](unsigned m, int i) { int v = i == 0; for (int j = 0; j < D; ++j) v &= (1 - (src[j] & dst[j])) | H(m, j); return v; }); break;
        case 15: def([&](unsigned m, int i) { int v = ex[i]; for (int j = 0; j < D; ++j) v &= (1 - (E[i][j] & H(m, j))) | H(m, i); return v; }); break;
        case 5: case 17: {
            int b = o.atom(id("b"));
            o.choice(1, b);
            for (unsigned m = 0; m < 8; ++m) {
                int en = 1;
                std::vector<int> hd;
                for (int i = 0; i < D; ++i) { en &= ((m >> i) & 1) ? E[0][i] : 1 - E[0][i]; if ((m >> i) & 1) hd.push_back(h(i)); }
                if (c == 5) o.rule(en, hd, {b});
                else o.rule(en & ex[0], hd, {}, {}, {b});
            }
            break;
        }
        case 6: for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) o.rule(E[i][j], i == j ? std::vector<int>{h(i)} : std::vector<int>{h(i), h(j)}); break;
        case 7: o.rule(1, {h(0), h(1)}); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) o.rule(E[i][j], {h(i)}, {h(j)}); break;
        case 8: {
            int qq = o.atom(id("q")), b = o.atom(id("b"));
            o.choice(1, qq); o.choice(1, b);
            o.rule(src[0], {h(0), h(1)}, {b, qq});
            o.rule(1 - src[0], {h(1)}, {b});
            o.rule(1, {h(1)}, {b}, {qq});
            break;
        }
        case 11:
            for (int i = 0; i < D; ++i) { o.rule(src[i], {h(i), nh(i)}); o.rule(1, {}, {h(i), nh(i)}); for (int j = 0; j < D; ++j) if (i != j) o.rule(E[i][j], {nh(j)}, {h(i)}); }
            break;
        case 13: {
            int qq = o.atom(id("q"));
            for (unsigned m = 0; m < 8; ++m) {
                int en = ex[1];
                std::vector<int> hd{qq};
                for (int i = 0; i < D; ++i) { int v = src[i] & (1 - ex[i]); en &= ((m >> i) & 1) ? v : 1 - v; if ((m >> i) & 1) hd.push_back(h(i)); }
                o.rule(en, hd);
            }
            break;
        }
        case 16:
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
                std::set<int> hd{h(i), h(j), h(2)};
                o.rule(E[i][j], std::vector<int>(hd.begin(), hd.end()), {}, i == 0 ? std::vector<int>{q(0)} : std::vector<int>{});
            }
            o.rule(1, {q(0)}, {h(1)});
            break;
    }
    if (!o.atoms.empty()) checkModels(s.rec, o, ign);
    symx_reach("end");
}
