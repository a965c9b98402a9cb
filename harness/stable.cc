// default negation, choices, constraints, classical negation and loops: the stable models are those of the source program
#include "asp.hh"
#include "facts.hh"
using namespace H;
int main() {
    int n = (int)symx_param("n", 3), D = (int)symx_param("dom", 3);
    static const char *rules[] = {
        /* 0*/ "h(X) :- r(X,Y), not h(Y).",
        /* 1*/ "h(0). h(X) :- r(X,Y), h(Y), not h(X-1).",
        /* 2*/ "{h(X)} :- e(X). h(X) :- r(X,Y), h(Y).",
        /* 3*/ "{h(X) : r(X,_)}. :- h(X), not h(Y), r(X,Y).",
        /* 4*/ "h(X) :- r(X,Y), not not h(Y).",
        /* 5*/ "{h(0..2)}. p(X) :- r(X,Y), not h(Y). p(X) :- r(Y,X), h(Y), p(Y).",
        /* 6*/ "h(X) :- r(X,_), not -h(X). -h(X) :- r(_,X), not h(X).",
        /* 7*/ "h(X) :- r(X,Y), not -h(Y). -h(Y) :- r(X,Y), h(Y).",
        /* 8*/ "{h(Y) : r(X,Y)} :- e(X). not h(X) :- r(X,X).",
        /* 9*/ "{e(3)}. h(Y) :- e(X), r(X,Y). h(Y) :- e(3), r(Y,Z). p(X) :- h(X), not h(X+1).",
        /*10*/ "h(X) :- r(X,Y), not p(Y). p(X) :- r(X,Y), not h(Y).",
        /*11*/ "{h(X)} :- r(X,_). :- r(X,Y), X < Y, h(X), h(Y). p(X) :- r(X,Y), not h(X), not h(Y).",
        /*12*/ "h(X) :- r(X,Y), not p. {p}. :- p, h(X).",
        /*13*/ "not not h(X) :- r(X,X). {h(X) : r(X,_), not e(X)}.",
        /*14*/ "h(X) :- h(Y), r(X,Y). h(Y) :- not q, e(Y). q :- not h(1). ",
    };
    int c = parts("case", 15), rev = pick("rev", 2);
    int x[8], y[8];
    SymVec par;
    std::string ps, facts;
    auto S = [](int i) { return std::to_string(i); };
    for (int i = 0; i < n; ++i) {
        x[i] = symx_int(("x" + S(i)).c_str(), 0, D - 1);
        y[i] = symx_int(("y" + S(i)).c_str(), 0, D - 1);
        par.push_back(num(x[i])); par.push_back(num(y[i]));
        ps += (i ? "," : "") + std::string("x") + S(i) + ",y" + S(i);
        facts += "r(x" + S(i) + ",y" + S(i) + "). ";
    }
    facts += "e(x0). ";
    std::string prg = "#program base(" + ps + "). ";
    prg = rev ? prg + rules[c] + " " + facts : prg + facts + rules[c];
    symx_observe("rules", rules[c]);
    Session s;
    bool ok = s.run(prg, par);
    symx_assert(ok, "accepted");
    int E[4][4] = {}, ex[4] = {};
    for (int i = 0; i < D; ++i) { ex[i] = x[0] == i; for (int j = 0; j < D; ++j) for (int k = 0; k < n; ++k) E[i][j] |= (x[k] == i) & (y[k] == j); }
    Oracle o;
    auto h = [&](int i) { return o.atom(fun("h", {num(i)})); };
    auto p = [&](int i) { return o.atom(fun("p", {num(i)})); };
    Symbol one;
    auto nh = [&](int i) { Symbol a = num(i); return o.atom(Symbol::createFun("h", SymSpan{&a, 1}, true)); };
    int src[4] = {}, dst[4] = {};
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { src[i] |= E[i][j]; dst[j] |= E[i][j]; }
    std::vector<char const *> ign{"r", "e"};
    auto both = [&](std::function<void(int, int, int)> f) { for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) f(i, j, E[i][j]); };
    switch (c) {
        case 0: both([&](int i, int j, int e) { o.rule(e, {h(i)}, {}, {h(j)}); }); break;
        case 1: o.rule(1, {h(0)}); both([&](int i, int j, int e) { o.rule(e, {h(i)}, {h(j)}, {h(i - 1)}); }); break;
        case 2: for (int i = 0; i < D; ++i) o.choice(ex[i], h(i)); both([&](int i, int j, int e) { o.rule(e, {h(i)}, {h(j)}); }); break;
        case 3: for (int i = 0; i < D; ++i) o.choice(src[i], h(i)); both([&](int i, int j, int e) { o.rule(e, {}, {h(i)}, {h(j)}); }); break;
        case 4: both([&](int i, int j, int e) { o.rule(e, {h(i)}, {}, {}, {h(j)}); }); break;
        case 5:
            for (int i = 0; i < 3; ++i) o.choice(1, h(i));
            both([&](int i, int j, int e) { o.rule(e, {p(i)}, {}, {h(j)}); });
            both([&](int i, int j, int e) { o.rule(e, {p(j)}, {h(i), p(i)}); });
            break;
        case 6:
            for (int i = 0; i < D; ++i) { o.rule(src[i], {h(i)}, {}, {nh(i)}); o.rule(dst[i], {nh(i)}, {}, {h(i)}); o.rule(1, {}, {h(i), nh(i)}); }
            break;
        case 7:
            both([&](int i, int j, int e) { o.rule(e, {h(i)}, {}, {nh(j)}); o.rule(e, {nh(j)}, {h(j)}); });
            for (int i = 0; i < D; ++i) o.rule(1, {}, {h(i), nh(i)});
            break;
        case 8:
            both([&](int i, int j, int e) { o.choice(e & ex[i], h(j)); });
            for (int i = 0; i < D; ++i) o.rule(E[i][i], {}, {h(i)});
            break;
        case 9: {
            int e3 = o.atom(fun("e", {num(3)}));
            o.choice(1, e3);
            both([&](int i, int j, int e) { o.rule(e & ex[i], {h(j)}); o.rule(e, {h(i)}, {e3}); });
            for (int i = 0; i < D; ++i) o.rule(1, {p(i)}, {h(i)}, i + 1 < D ? std::vector<int>{h(i + 1)} : std::vector<int>{});
            break;
        }
        case 10: both([&](int i, int j, int e) { o.rule(e, {h(i)}, {}, {p(j)}); o.rule(e, {p(i)}, {}, {h(j)}); }); break;
        case 11:
            for (int i = 0; i < D; ++i) o.choice(src[i], h(i));
            both([&](int i, int j, int e) { if (i < j) o.rule(e, {}, {h(i), h(j)}); o.rule(e, {p(i)}, {}, {h(i), h(j)}); });
            break;
        case 12: {
            int q = o.atom(id("p"));
            o.choice(1, q);
            for (int i = 0; i < D; ++i) { o.rule(src[i], {h(i)}, {}, {q}); o.rule(1, {}, {q, h(i)}); }
            break;
        }
        case 13:
            for (int i = 0; i < D; ++i) { o.rule(E[i][i], {}, {}, {h(i)}); o.choice(src[i] & (1 - ex[i]), h(i)); }
            break;
        case 14: {
            int q = o.atom(id("q"));
            both([&](int i, int j, int e) { o.rule(e, {h(i)}, {h(j)}); });
            for (int i = 0; i < D; ++i) o.rule(ex[i], {h(i)}, {}, {q});
            o.rule(1, {q}, {}, {h(1)});
            break;
        }
    }
    checkModels(s.rec, o, ign);
    symx_reach("end");
}
