// minimize, maximize and weak constraints over free atoms
#include "asp.hh"
using namespace H;
int main() {
    int c = parts("case", 7), lo = (int)symx_param("lo", -2), hi = (int)symx_param("hi", 2), n = (int)symx_param("n", 3);
    static const char *at[] = {"a", "b", "c"};
    int w[3], p[3], t[3], cond[3];
    SymVec par, ch;
    std::string ps;
    auto v = [&](std::string const &nm, int l, int h) { int x = symx_int(nm.c_str(), l, h); par.push_back(num(x)); ps += (ps.empty() ? "" : ",") + nm; return x; };
    for (int i = 0; i < n; ++i) {
        std::string s = std::to_string(i);
        w[i] = v("w" + s, lo, hi);
        p[i] = v("p" + s, 0, 1);
        t[i] = v("t" + s, 0, 1);
        cond[i] = i; // element i depends on atom i
        ch.push_back(id(at[i]));
    }
    auto el = [&](int i, bool neg = false, bool fact = false) {
        std::string s = std::to_string(i);
        return "w" + s + "@p" + s + ",t" + s + (fact ? "" : std::string(" : ") + (neg ? "not " : "") + at[i]);
    };
    auto wk = [&](int i, bool neg = false) {
        std::string s = std::to_string(i);
        return std::string(":~ ") + (neg ? "not " : "") + at[i] + ". [w" + s + "@p" + s + ",t" + s + "] ";
    };
    std::string prg = std::string("{a;b") + (n > 2 ? ";c" : "") + "}. ";
    bool neg[3] = {}, fact[3] = {};
    int sgn = 1;
    switch (c) {
        case 0: prg += "#minimize { "; for (int i = 0; i < n; ++i) prg += (i ? "; " : "") + el(i); prg += " }."; break;
        case 1: prg += "#maximize { "; for (int i = 0; i < n; ++i) prg += (i ? "; " : "") + el(i); prg += " }."; sgn = -1; break;
        case 2: for (int i = 0; i < n; ++i) prg += wk(i); break;
        case 3: prg += "#minimize { " + el(0) + "; " + el(1, true) + " }. "; neg[1] = true; if (n > 2) prg += wk(2); break;
        case 4: prg += "#minimize { " + el(0, false, true) + "; " + el(1) + " }. "; fact[0] = true; if (n > 2) { prg += wk(2, true); neg[2] = true; } break;
        case 5: for (int i = 0; i < n; ++i) prg += "#minimize { " + el(i) + " }. "; break;
        case 6: prg += "x(w0,p0,t0,a). x(w1,p1,t1,b). "; if (n > 2) prg += "x(w2,p2,t2,c). "; prg += "h(a) :- a. h(b) :- b. h(c) :- c. :~ x(W,P,T,A), h(A). [W@P,T]"; break;
    }
    symx_observe("prg", prg);
    Session s;
    bool ok = s.run("#program base(" + ps + "). #defined c/0. " + prg, par);
    symx_assert(ok, "accepted");
    Models m(s.rec);
    int bad = 0;
    int count[8] = {};
    m.each([&] {
        int tr[3];
        unsigned sub = 0;
        for (int i = 0; i < n; ++i) { tr[i] = (int)symx_concrete(m.shown(ch[i])); sub |= (unsigned)tr[i] << i; }
        count[sub] += m.valid;
        for (int q = 0; q <= 1; ++q) {
            int64_t e = 0;
            for (int i = 0; i < n; ++i) {
                int h = fact[i] ? 1 : neg[i] ? 1 - tr[i] : tr[i], dup = 0;
                for (int j = 0; j < i; ++j) { int hj = fact[j] ? 1 : neg[j] ? 1 - tr[j] : tr[j]; dup |= hj & (w[i] == w[j]) & (p[i] == p[j]) & (t[i] == t[j]); }
                e += (int64_t)w[i] * (h & (1 - dup) & (p[i] == q));
            }
            bad |= m.valid & (m.cost(q) != sgn * e);
        }
    });
    symx_assert(bad == 0, "cost");
    int one = 1;
    for (unsigned i = 0; i < (1u << n); ++i) one &= count[i] == 1;
    symx_assert(one, "one-model-per-choice");
    int pr = 1;
    for (auto &x : s.rec.mins) pr &= (x.prio == 0) | (x.prio == 1);
    symx_assert(pr, "priority");
    symx_reach("end");
}
