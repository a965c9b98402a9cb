// joins, recursion and stratified negation over symbolic facts
#include "facts.hh"
using namespace H;
int main() {
    int n = (int)symx_param("n", 3), D = (int)symx_param("dom", 3);
    int c = parts("case", 13), rev = pick("rev", 2);
    static const std::vector<std::string> cases[] = {
        {"p(X,Y) :- e(X,Y).", "p(X,Z) :- p(X,Y), e(Y,Z)."},
        {"p(X,Y) :- e(X,Y).", "p(X,Z) :- p(X,Y), p(Y,Z)."},
        {"a(0).", "b(Y) :- a(X), e(X,Y).", "a(Y) :- b(X), e(X,Y).", "p(X) :- a(X)."},
        {"p(X,Y,Z) :- e(X,Y), e(Y,Z), e(Z,X)."},
        {"r(X) :- e(X,_).", "p(X) :- r(X), not e(_,X)."},
        {"r(0).", "r(Y) :- r(X), e(X,Y).", "n(X) :- e(X,_).", "n(Y) :- e(_,Y).", "p(X) :- n(X), not r(X)."},
        {"q(0).", "q(X+1) :- q(X), e(X,_), X < 3.", "p(X) :- q(X), X > 0."},
        {"p(X) :- e(X,Y), e(Y,X), X <= Y."},
        {"p(X,N) :- e(X,_), N = #count { Y : e(X,Y) }."},
        {"p(X) :- e(X,X)."},
        {"p(X,Y) :- e(X,Y), not q(X).", "q(X) :- e(X,Y), e(Y,X), X != Y."},
        {"p(f(X)) :- e(0,X).", "p(f(Y)) :- p(f(X)), e(X,Y), X != Y."},
        {"p(X,Y) :- e(X,Y), e(X,Z), Y < Z.", "p(X,X) :- p(X,_), e(_,X)."},
    };
    int x[8], y[8];
    SymVec par;
    std::string ps, facts;
    auto S = [](int i) { return std::to_string(i); };
    for (int i = 0; i < n; ++i) {
        x[i] = symx_int(("x" + S(i)).c_str(), 0, D - 1);
        y[i] = symx_int(("y" + S(i)).c_str(), 0, D - 1);
        par.push_back(num(x[i])); par.push_back(num(y[i]));
        ps += (i ? "," : "") + std::string("x") + S(i) + ",y" + S(i);
        facts += "e(x" + S(i) + ",y" + S(i) + "). ";
    }
    std::string prg = "#program base(" + ps + "). ";
    if (!rev) prg += facts;
    for (size_t i = 0; i < cases[c].size(); ++i) prg += cases[c][rev ? cases[c].size() - 1 - i : i] + " ";
    if (rev) prg += facts;
    symx_observe("case", c);
    Session s;
    bool ok = s.run(prg, par);
    symx_assert(ok, "accepted");
    int E[4][4] = {};
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) for (int k = 0; k < n; ++k) E[i][j] |= (x[k] == i) & (y[k] == j);
    int T[4][4];
    memcpy(T, E, sizeof(E));
    for (int k = 0; k < D; ++k) for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) T[i][j] |= T[i][k] & T[k][j];
    Expect e;
    size_t ar = 1;
    int src[4] = {}, dst[4] = {};
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { src[i] |= E[i][j]; dst[j] |= E[i][j]; }
    switch (c) {
        case 0: case 1: ar = 2; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) e.add({num(i), num(j)}, T[i][j]); break;
        case 2: {
            int a[4] = {1, 0, 0, 0}, b[4] = {};
            for (int r = 0; r < 2 * D; ++r) for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { b[j] |= a[i] & E[i][j]; a[j] |= b[i] & E[i][j]; }
            for (int i = 0; i < D; ++i) e.add({num(i)}, a[i]);
            break;
        }
        case 3: ar = 3; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) for (int k = 0; k < D; ++k) e.add({num(i), num(j), num(k)}, E[i][j] & E[j][k] & E[k][i]); break;
        case 4: for (int i = 0; i < D; ++i) e.add({num(i)}, src[i] & (1 - dst[i])); break;
        case 5: for (int i = 0; i < D; ++i) e.add({num(i)}, (src[i] | dst[i]) & (1 - (i == 0 ? 1 : T[0][i]))); break;
        case 6: { int q = 1; for (int i = 0; i < D && i < 3; ++i) { q &= src[i]; e.add({num(i + 1)}, q); } break; }
        case 7: for (int i = 0; i < D; ++i) { int v = 0; for (int j = i; j < D; ++j) v |= E[i][j] & E[j][i]; e.add({num(i)}, v); } break;
        case 8: ar = 2; for (int i = 0; i < D; ++i) { int v = 0; for (int j = 0; j < D; ++j) v += E[i][j]; e.add({num(i), num(v)}, src[i]); } break;
        case 9: for (int i = 0; i < D; ++i) e.add({num(i)}, E[i][i]); break;
        case 10: ar = 2; for (int i = 0; i < D; ++i) { int q = 0; for (int j = 0; j < D; ++j) if (j != i) q |= E[i][j] & E[j][i]; for (int j = 0; j < D; ++j) e.add({num(i), num(j)}, E[i][j] & (1 - q)); } break;
        case 11: {
            int v[4];
            for (int i = 0; i < D; ++i) v[i] = E[0][i];
            for (int r = 0; r < D; ++r) for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (i != j) v[j] |= v[i] & E[i][j];
            for (int i = 0; i < D; ++i) e.add({fun("f", {num(i)})}, v[i]);
            break;
        }
        case 12: {
            ar = 2;
            for (int i = 0; i < D; ++i) {
                int any = 0;
                for (int j = 0; j < D; ++j) { int v = 0; for (int k = j + 1; k < D; ++k) v |= E[i][k]; v &= E[i][j]; any |= v; if (j != i) e.add({num(i), num(j)}, v); else e.add({num(i), num(i)}, v); }
                e.add({num(i), num(i)}, any & dst[i]);
            }
            break;
        }
    }
    checkFacts(s.rec, "p", ar, e);
    symx_reach("end");
}
