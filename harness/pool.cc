// ranges and pools expand to exactly their elements in every context
#include "facts.hh"
using namespace H;
int main() {
    int lo = (int)symx_param("lo", -2), hi = (int)symx_param("hi", 2);
    int c = parts("case", 34);
    int l = symx_int("l", lo, hi), u = symx_int("u", lo, hi), x = symx_int("x", lo, hi);
    static const char *rules[] = {
        /* 0*/ "p(l..u).", "p(X) :- X = l..u.", "p(X,Y) :- X = l..u, Y = X..u.", "p(1) :- e(l..u).", "p(X) :- e(X), X = l..u.",
        /* 5*/ "p(l;u).", "p((l;u),x).", "p(f(l;u)).", "p(X) :- X = (l;u;x).", "p(1) :- e(l;u).",
        /*10*/ "p(1) :- not e(l;u).", "p(X) :- X = l..u, not e(X).", "p(1..2,l..u).", "p(X) :- X = #count { Y : Y = l..u }.", "p(S) :- S = #sum { X : X = l..u }.",
        /*15*/ "p(X) :- X = (l..u;x).", "p(S) :- S = #sum { (l;u) }.", "p(X) :- X = (l..u) + 1.", "p(l;u,x).", "p(1) :- e(X) : X = l..u.",
        /*20*/ "p(X) :- X = l..u, X = x..u.", "p(X) :- l..u = X.", "p(X*2) :- X = l..u.", "p(X,Y) :- X = l..u, Y = l..u, X < Y.", "p(X) :- X = f(l..u).",
        /*25*/ "p(S) :- S = #count { l..u; x }.", "p(1) :- e(X), X = l..u.", "p(l..u) :- e(l;u).", "p(|l..u|).", "p((l..u)..x).",
        /*30*/ "p(l..a).", "p(1) :- not not e(l;u).", "p(X) :- e(X;X,1).", "p(X) :- e(X), not X < (l;u)."};
    symx_observe("rule", rules[c]);
    Session s;
    // l and u as constants or variables
    bool cs = pick("const", 2);
    std::string r = rules[c];
    SymVec par{num(x)};
    std::string ps = "x";
    if (cs) { s.define("l", num(l)); s.define("u", num(u)); }
    else { ps += ",l,u"; par.push_back(num(l)); par.push_back(num(u)); }
    bool ok = s.run("#program base(" + ps + "). e(x). " + (c == 32 ? "e(l,1). e(u,2). " : "") + r, par);
    symx_assert(ok, "accepted");
    Expect e;
    size_t ar = 1;
    auto in = [&](int v) { return (l <= v) & (v <= u); };
    int cnt = 0, sum = 0;
    for (int v = lo - 1; v <= hi + 1; ++v) { cnt += in(v); sum += in(v) * v; }
    for (int v = lo; v <= hi; ++v) {
        switch (c) {
            case 0: case 1: case 21: e.add({num(v)}, in(v)); break;
            case 2: ar = 2; for (int w = v; w <= hi; ++w) e.add({num(v), num(w)}, in(v) & (w <= u)); break;
            case 4: e.add({num(v)}, in(v) & (v == x)); break;
            case 11: e.add({num(v)}, in(v) & (v != x)); break;
            case 12: ar = 2; e.add({num(1), num(v)}, in(v)); e.add({num(2), num(v)}, in(v)); break;
            case 15: e.add({num(v)}, in(v) | (v == x)); break;
            case 17: e.add({num(v + 1)}, in(v)); break;
            case 20: e.add({num(v)}, in(v) & (x <= v)); break;
            case 22: e.add({num(2 * v)}, in(v)); break;
            case 23: ar = 2; for (int w = v + 1; w <= hi; ++w) e.add({num(v), num(w)}, in(v) & in(w)); break;
            case 24: e.add({fun("f", {num(v)})}, in(v)); break;
            case 27: e.add({num(v)}, in(v) & ((l == x) | (u == x))); break;
            case 28: e.add({num(v < 0 ? -v : v)}, in(v)); break;
            case 29: e.add({num(v)}, (cnt > 0) & (l <= v) & (v <= x)); break;
        }
    }
    switch (c) {
        case 3: case 26: e.add({num(1)}, in(x)); break;
        case 5: case 8: e.add({num(l)}); e.add({num(u)}); if (c == 8) e.add({num(x)}); break;
        case 6: ar = 2; e.add({num(l), num(x)}); e.add({num(u), num(x)}); break;
        case 7: e.add({fun("f", {num(l)})}); e.add({fun("f", {num(u)})}); break;
        case 9: case 31: e.add({num(1)}, (l == x) | (u == x)); break;
        case 10: e.add({num(1)}, (l != x) | (u != x)); break;
        case 13: e.add({num(cnt)}); break;
        case 14: e.add({num(sum)}); break;
        case 16: e.add({num(l + u * (l != u))}); break;
        case 18: e.add({num(l)}); break;
        case 19: e.add({num(1)}, (cnt == 0) | ((cnt == 1) & (l == x))); break;
        case 25: e.add({num(cnt + 1 - in(x))}); break;
        case 32: e.add({num(x)}); e.add({num(l)}); e.add({num(u)}, u == 99); break;
        case 33: e.add({num(x)}, (x >= l) | (x >= u)); break;
    }
    checkFacts(s.rec, "p", ar, e);
    if (c == 18) {
        Expect e2;
        e2.add({num(u), num(x)});
        checkFacts(s.rec, "p", 2, e2);
    }
    if (c == 30) symx_assert(s.msgs.count[static_cast<int>(Warnings::OperationUndefined)] > 0, "undefined-reported");
    symx_reach("end");
}
