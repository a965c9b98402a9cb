// matching of body atoms against facts with arbitrary symbolic arguments
#include "facts.hh"
#include "sym.hh"
using namespace H;
struct Pat {
    int k; // 0 variable, 1 anonymous, 2 constant, 3 function, 4 negated variable
    int var = 0;
    Symbol c;
    std::string name;
    bool neg = false;
    std::vector<Pat> args;
};
static Pat V(int i) { Pat p; p.k = 0; p.var = i; return p; }
static Pat N(int i) { Pat p; p.k = 4; p.var = i; return p; }
static Pat A() { Pat p; p.k = 1; return p; }
static Pat C(Symbol s) { Pat p; p.k = 2; p.c = s; return p; }
static Pat F(char const *n, std::vector<Pat> a, bool neg = false) { Pat p; p.k = 3; p.name = n; p.args = std::move(a); p.neg = neg; return p; }
struct Bind { Symbol v[3]; bool set[3] = {false, false, false}; };
// condition under which s matches; extends b
static int match(Pat const &p, Symbol s, Bind &b) {
    switch (p.k) {
        case 0:
            if (b.set[p.var]) return eq(b.v[p.var], s);
            b.set[p.var] = true; b.v[p.var] = s;
            return 1;
        case 1: return 1;
        case 2: return eq(p.c, s);
        case 4: {
            // -X
            Symbol t;
            if (s.type() == SymbolType::Num) t = num((int)(0u - (unsigned)s.num()));
            else if (s.type() == SymbolType::Fun) t = s.flipSign();
            else return 0;
            if (b.set[p.var]) return eq(b.v[p.var], t);
            b.set[p.var] = true; b.v[p.var] = t;
            return 1;
        }
    }
    if (s.type() != SymbolType::Fun || s.sign() != p.neg || p.name != s.name().c_str() || s.args().size != p.args.size()) return 0;
    int r = 1;
    for (size_t i = 0; i < p.args.size() && r; ++i) r &= match(p.args[i], s.args()[i], b);
    return r;
}
struct Lit { Pat p; bool neg = false; };
struct Case { char const *rule; std::vector<int> head; std::vector<Lit> body; };
int main() {
    GenOpt o;
    o.depth = (int)symx_param("depth", 1);
    o.maxArgs = 2; o.strLen = 1; o.nlo = (int)symx_param("nlo", -1); o.nhi = (int)symx_param("nhi", 2);
    o.leafOnlyNum = symx_param("leafnum", 1);
    o.names = 2;
    Spec s0 = gen("x", o);
    int two = (int)symx_param("two", 1);
    Symbol f0 = s0.build(), f1 = f0;
    if (two == 2) f1 = gen("y", o).build();
    if (two == 1) {
        // a few shapes only
        int k = symx_choose("y", 0, 4);
        Symbol n0 = num(symx_int("y0", o.nlo, o.nhi)), n1 = num(symx_int("y1", o.nlo, o.nhi));
        f1 = k == 0 ? n0 : k == 1 ? fun("f", {n0}) : k == 2 ? fun("f", {n0, n1}) : k == 3 ? fun("g", {n0, n1}) : Symbol::createFun("f", SymSpan{&n0, 1}, true);
    }
    std::vector<Case> cs;
    cs.push_back({"p(X) :- e(X).", {0}, {{V(0)}}});
    cs.push_back({"p(X) :- e(f(X)).", {0}, {{F("f", {V(0)})}}});
    cs.push_back({"p(Y,X) :- e(f(X,Y)).", {1, 0}, {{F("f", {V(0), V(1)})}}});
    cs.push_back({"p(X) :- e(f(X,X)).", {0}, {{F("f", {V(0), V(0)})}}});
    cs.push_back({"p(X) :- e((X,1)).", {0}, {{F("", {V(0), C(num(1))})}}});
    cs.push_back({"p(X) :- e((X,)).", {0}, {{F("", {V(0)})}}});
    cs.push_back({"p(X) :- e(-f(X)).", {0}, {{F("f", {V(0)}, true)}}});
    cs.push_back({"p(X) :- e(-X).", {0}, {{N(0)}}});
    cs.push_back({"p(1) :- e(g).", {}, {{C(id("g"))}}});
    cs.push_back({"p(1) :- e(\"b\").", {}, {{C(Symbol::createStr("b"))}}});
    cs.push_back({"p(X,Y) :- e(f(X)), e(f(Y)).", {0, 1}, {{F("f", {V(0)})}, {F("f", {V(1)})}}});
    cs.push_back({"p(X) :- e(X), e(f(X)).", {0}, {{V(0)}, {F("f", {V(0)})}}});
    cs.push_back({"p(1) :- e(#inf).", {}, {{C(Symbol::createInf())}}});
    cs.push_back({"p(X) :- e(X), not e(f(X)).", {0}, {{V(0)}, {F("f", {V(0)}), true}}});
    cs.push_back({"p(X) :- e(f(_,X)).", {0}, {{F("f", {A(), V(0)})}}});
    cs.push_back({"p(X) :- e(X), e(f(_)).", {0}, {{V(0)}, {F("f", {A()})}}});
    cs.push_back({"p(X) :- e(X), not e(g(_,_)).", {0}, {{V(0)}, {F("g", {A(), A()}), true}}});
    cs.push_back({"p(X) :- e(f(X,1+1)).", {0}, {{F("f", {V(0), C(num(2))})}}});
    cs.push_back({"p(X) :- e((f;g)(X)).", {}, {}});
    cs.pop_back();
    cs.push_back({"p(X,Y) :- e(X), e(Y).", {0, 1}, {{V(0)}, {V(1)}}});
    cs.push_back({"p(X) :- e(f(X,_)), e(g(_,X)).", {0}, {{F("f", {V(0), A()})}, {F("g", {A(), V(0)})}}});
    cs.push_back({"p(X) :- e(X), e(-X).", {0}, {{V(0)}, {N(0)}}});
    cs.push_back({"p(X) :- e(-f(-X)).", {0}, {{F("f", {N(0)}, true)}}});
    Case const &c = cs[parts("case", (int)cs.size())];
    symx_observe("rule", c.rule);
    Session s;
    bool ok = s.run(std::string("#program base(x,y). e(x). e(y). ") + c.rule, {f0, f1});
    symx_assert(ok, "accepted");
    Symbol fs[2] = {f0, f1};
    Expect x;
    size_t pos = 0;
    for (auto &l : c.body) pos += !l.neg;
    for (unsigned comb = 0; comb < (1u << pos); ++comb) {
        Bind b;
        int cond = 1, k = 0;
        for (auto &l : c.body) if (!l.neg) { cond &= match(l.p, fs[(comb >> k) & 1], b); ++k; if (!cond) break; }
        if (!cond) continue;
        for (auto &l : c.body) {
            if (!l.neg) continue;
            int any = 0;
            for (auto &f : fs) { Bind bb = b; any |= match(l.p, f, bb); }
            cond &= 1 - any;
        }
        SymVec a;
        if (c.head.empty()) a.push_back(num(1));
        for (auto h : c.head) a.push_back(b.v[h]);
        x.add(a, cond);
    }
    checkFacts(s.rec, "p", x.e.empty() ? (c.head.empty() ? 1 : c.head.size()) : x.e[0].first.size(), x);
    symx_reach("end");
}
