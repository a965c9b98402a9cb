// comparisons, comparison chains, assignments and integer bounds
#include "facts.hh"
using namespace H;
struct V { int cls; int n; Symbol s; };
static V N(int n) { return {1, n, num(n)}; }
static int cmp3(V a, V b, int &lt, int &e) {
    if (a.cls != b.cls) { lt = a.cls < b.cls; e = 0; }
    else if (a.cls == 1) { lt = a.n < b.n; e = a.n == b.n; }
    else { lt = 0; e = 1; } // one representative per class only
    return 0;
}
static int rel(int r, V a, V b) {
    int lt, e;
    cmp3(a, b, lt, e);
    switch (r) {
        case 0: return lt;
        case 1: return lt | e;
        case 2: return e;
        case 3: return 1 - e;
        case 4: return 1 - lt;
        default: return (1 - lt) & (1 - e);
    }
}
int main() {
    static const char *R[] = {"<", "<=", "=", "!=", ">=", ">"};
    int c = parts("case", (int)symx_param("ncase", 19));
    int64_t lo = symx_param("lo", -4), hi = symx_param("hi", 4);
    int r1 = 0, r2 = 0;
    if (c != 6 && c != 8 && c != 11) r1 = pick("r1", 6);
    if (c == 1 || c == 2 || c == 18) r2 = pick("r2", 6);
    bool cs = c == 4 || c == 6 || c == 13 || c >= 19 ? true : pick("const", 2);
    int l = symx_int("l", lo, hi), u = symx_int("u", lo, hi), x = symx_int("x", lo, hi), m = 1, n = 1;
    static const int cls[] = {0, 2, 3, 4, 5};
    Symbol one = num(1);
    Symbol ks[] = {Symbol::createInf(), id("a"), Symbol::createStr("s"), Symbol::createFun("f", SymSpan{&one, 1}), Symbol::createSup()};
    bool chain = c == 1 || c == 2 || c == 18;
    // both bounds are known: ranges are enumerated
    if ((chain || c == 17) && cs) { int w = (int)symx_param("w", 1); symx_assume(l >= -w && l <= w && u >= -w && u <= w && x >= -w && x <= w); }
    if (c == 6) symx_assume(l >= -2 && u <= 3);
    int k = c == 4 || c == 6 || c >= 11 && c <= 13 || c >= 19 ? 0 : c == 5 ? 1 : chain ? symx_choose("k", 1, (int)symx_param("nc", 1)) : symx_choose("k", 0, (int)symx_param("nk", 5) - 1);
    V ev[2] = {N(x), {cls[k], 0, ks[k]}}, L = N(l), U = N(u);
    if (c == 5) { m = symx_choose("m", -2, 2); n = symx_choose("n", -1, 2); symx_assume(m != 0 && n != 0); }
    if (c >= 19) {
        int w = (int)symx_param("iew", c == 19 ? 7 : 4);
        l = symx_int("rhs", -w, w); L = N(l);
        m = symx_choose("m", -3, 3);
        symx_assume(m != 0);
        if (c == 20) { n = pick("n", 3) == 0 ? -1 : 2; symx_assume((m == -2) | (m == 1) | (m == 3)); }
    }
    std::string a = R[r1], b = R[r2], prg;
    auto S = [](int v) { return std::to_string(v); };
    switch (c) {
        case 0: prg = "p(X) :- e(X), l" + a + "X."; break;
        case 1: prg = "p(X) :- e(X), l" + a + "X" + b + "u."; break;
        case 2: prg = "p(X) :- e(X), not l" + a + "X" + b + "u."; break;
        case 3: prg = "p(X) :- e(X), not not X" + a + "u."; break;
        case 4: prg = "p(X) :- l <= X, X <= u, X" + a + "1."; break;
        case 5: prg = "p(X,Y) :- e(X), g(Y), " + S(m) + "*X+" + S(n) + "*Y" + a + "u."; break;
        case 6: prg = "p(X,Y) :- l <= X, X+Y <= u, Y >= 0."; break;
        case 7: prg = "l" + a + "X :- e(X)."; break;
        case 8: prg = "p(X,Y) :- e(Z), f(X,Y) = f(Z,l)."; break;
        case 9: prg = "p(X) :- e(X), f(X,l)" + a + "f(l,X)."; break;
        case 10: prg = "p(1) :- x" + a + "k. q(1) :- not x" + a + "k."; break;
        case 11: prg = "p(X,Y) :- X = Y = l."; break;
        case 12: prg = "p(X) :- l = X" + a + "u."; break;
        case 13: prg = "p(X) :- l <= X <= u, 2*X" + a + "3."; break;
        case 14: prg = "p(X) :- e(X), |X|" + a + "u."; break;
        case 15: prg = "p(X) :- e(X), #false : X" + a + "u."; break;
        case 16: prg = "p(X,Y) :- e(X), e(Y), X" + a + "Y."; break;
        case 17: prg = "p(X) :- e(X), not X" + a + "u, X >= l."; break;
        case 19: prg = "p(X) :- -3 <= X, X <= 3, " + S(m) + "*X" + a + "l."; break;
        case 20: prg = "p(X,Y) :- -2 <= X, X <= 2, 0 <= Y, Y <= 1, " + S(m) + "*X+" + S(n) + "*Y" + a + "l."; break;
        case 18: prg = "p(X) :- e(X), not not l" + a + "X" + b + "u."; break;
    }
    symx_observe("rule", prg);
    Session s;
    SymVec par{num(x), ks[k]};
    std::string ps = "x,k";
    if (cs) { s.define("l", num(l)); s.define("u", num(u)); }
    else { ps += ",l,u"; par.push_back(num(l)); par.push_back(num(u)); }
    bool ok = s.run("#program base(" + ps + "). e(x). e(k). g(l). " + prg, par);
    symx_assert(ok, "accepted");
    Expect e;
    size_t ar = 1;
    for (auto &v : ev) {
        switch (c) {
            case 0: e.add({v.s}, rel(r1, L, v)); break;
            case 1: case 18: e.add({v.s}, rel(r1, L, v) & rel(r2, v, U)); break;
            case 2: e.add({v.s}, 1 - (rel(r1, L, v) & rel(r2, v, U))); break;
            case 3: e.add({v.s}, rel(r1, v, U)); break;
            case 5: ar = 2; if (v.cls == 1) e.add({v.s, num(l)}, rel(r1, N(m * v.n + n * l), U)); break;
            case 8: ar = 2; e.add({v.s, num(l)}); break;
            case 9: {
                int lt, q;
                cmp3(v, L, lt, q);
                int lt1 = lt, q1 = q;
                cmp3(L, v, lt, q);
                // lexicographic comparison of (v,l) and (l,v)
                int less = lt1 | (q1 & lt), equal = q1 & q;
                int r = r1 == 0 ? less : r1 == 1 ? less | equal : r1 == 2 ? equal : r1 == 3 ? 1 - equal : r1 == 4 ? 1 - less : (1 - less) & (1 - equal);
                e.add({v.s}, r);
                break;
            }
            case 14: if (v.cls == 1) e.add({v.s}, rel(r1, N(v.n < 0 ? -v.n : v.n), U)); break;
            case 15: e.add({v.s}, 1 - rel(r1, v, U)); break;
            case 16: ar = 2; for (auto &w : ev) e.add({v.s, w.s}, rel(r1, v, w)); break;
            case 17: e.add({v.s}, (1 - rel(r1, v, U)) & rel(4, v, L)); break;
        }
    }
    for (int v = -5; v <= 9; ++v) {
        if (c == 4) e.add({num(v)}, (l <= v) & (v <= u) & rel(r1, N(v), N(1)));
        if (c == 19 && v >= -3 && v <= 3) e.add({num(v)}, rel(r1, N(m * v), L));
        if (c == 20 && v >= -2 && v <= 2) { ar = 2; for (int w = 0; w <= 1; ++w) e.add({num(v), num(w)}, rel(r1, N(m * v + n * w), L)); }
        if (c == 13) e.add({num(v)}, (l <= v) & (v <= u) & rel(r1, N(2 * v), N(3)));
        if (c == 6) { ar = 2; for (int w = 0; w <= 8; ++w) e.add({num(v), num(w)}, (l <= v) & (v + w <= u)); }
    }
    switch (c) {
        case 7: {
            int viol = 0;
            for (auto &v : ev) viol |= 1 - rel(r1, L, v);
            int got = 0;
            for (auto &x : s.rec.rules) got |= x.head.empty() && !x.choice && x.body.empty();
            symx_assert(viol == got, "constraint");
            break;
        }
        case 10: {
            e.add({num(1)}, rel(r1, ev[0], ev[1]));
            Expect q;
            q.add({num(1)}, 1 - rel(r1, ev[0], ev[1]));
            checkFacts(s.rec, "q", 1, q);
            break;
        }
        case 11: ar = 2; e.add({num(l), num(l)}); break;
        case 12: e.add({num(l)}, rel(r1, L, U)); break;
    }
    if (c == 10 && k == 0) {}
    if (c != 7) checkFacts(s.rec, "p", ar, e);
    symx_reach("end");
}
