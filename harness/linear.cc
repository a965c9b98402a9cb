// linear terms: matching, evaluation and simplification agree with integer arithmetic
#include "facts.hh"
using namespace H;
int main() {
    int form = pick("form", 17);
    int ms = pick("m", 6), m = ms < 3 ? ms - 3 : ms - 2;
    int64_t nr = symx_param("nr", 3), vlo = symx_param("vlo", -100), vhi = symx_param("vhi", 100);
    int n = symx_int("n", -nr, nr);
    int v0 = symx_int("v0", vlo, vhi), v1 = symx_int("v1", vlo, vhi);
    // p holds for the values x with  mm*x+nn = v
    int64_t mm = m, nn = n;
    static const char *rules[] = {
        "p(X) :- e(m*X+n).", "p(X) :- e(X*m+n).", "p(X) :- e(n+m*X).", "p(X) :- e(n-X).", "p(X) :- e(-1*X).", "p(X) :- e(f(m*X+n)).",
        "p(X) :- e(m*(X+n)).", "p(X) :- e(-(m*X)-n).", "p(X) :- e(Y), Y = m*X+n.", "p(X) :- e(Y), m*X+n = Y.", "p(X) :- Y = m*X+n, e(Y).",
        "p(X) :- e(m*X+n), g(X).", "p(X) :- g(X), e(m*X+n).", "p(X) :- e((m*X+n)+n).", "p(X) :- e(m*X+n,X).", "p(X) :- e(m*X+n) : h; e(m*X+n). h.", "p(X) :- e(m*X), not e(m*X+n)."};
    switch (form) {
        case 3: mm = -1; break;
        case 4: mm = -1; nn = 0; break;
        case 6: nn = (int64_t)m * n; break;
        case 7: mm = -m; nn = -n; break;
        case 13: nn = 2 * (int64_t)n; break;
        case 16: nn = 0; break;
    }
    Session s;
    s.define("m", num(m));
    s.define("n", num(n));
    std::string facts = form == 5 ? "e(f(v0)). e(f(v1)). e(a). e(g(v0)). e(\"x\")." : form == 14 ? "e(v0,w0). e(v1,w1)." : "e(v0). e(v1). e(a). e(f(v0)).";
    int w0 = 0, w1 = 0;
    int64_t vals[2] = {v0, v1};
    Expect x;
    SymVec par{num(v0), num(v1)};
    std::string ps = "v0,v1";
    if (form == 11 || form == 12 || form == 14) {
        w0 = symx_int("w0", vlo, vhi); w1 = symx_int("w1", vlo, vhi);
        par.push_back(num(w0)); par.push_back(num(w1));
        ps += ",w0,w1";
        if (form != 14) facts += "g(w0). g(w1).";
    }
    int wrap = 0;
    int k = 0;
    for (int64_t v : vals) {
        int64_t d = v - nn;
        // arithmetic within 32 bits
        wrap |= (d < INT32_MIN) | (d > INT32_MAX) | (v + n > INT32_MAX) | (v + n < INT32_MIN) | (v + 2 * n > INT32_MAX) | (v + 2 * n < INT32_MIN) | (v - n > INT32_MAX) | (v - n < INT32_MIN);
        // division without wide arithmetic: values are in range already
        int q = mm == 1 ? (int)d : mm == -1 ? (int)-d : (int)d / (int)mm;
        if (mm == -1) wrap |= -d > INT32_MAX;
        int c = mm == 1 || mm == -1 ? 1 : (int)d % (int)mm == 0;
        if (form == 11 || form == 12) c &= (q == w0) | (q == w1);
        if (form == 14) c &= q == (k == 0 ? w0 : w1);
        if (form == 16) c &= 1 - ((v + n == v0) | (v + n == v1));
        x.add({num(q)}, c);
        ++k;
    }
    if (form == 11 || form == 12) {
        // the product must be representable for all values of X
        for (int64_t w : {(int64_t)w0, (int64_t)w1}) { int64_t p = mm * w; wrap |= (p < INT32_MIN) | (p > INT32_MAX) | (p + nn < INT32_MIN) | (p + nn > INT32_MAX); }
    }
    symx_assume(!wrap);
    std::string prg = "#program base(" + ps + "). " + facts + rules[form];
    bool ok = s.run(prg, par);
    symx_assert(ok, "accepted");
    checkFacts(s.rec, "p", 1, x);
    symx_reach("end");
}
