// constants are replaced by their values everywhere terms occur and nowhere else
#include "asp.hh"
using namespace H;
static const char *names[] = {"a", "b", "c"};
struct Def { int kind = 0, num = 0, to = 0; };
// value of a constant as text, false if definitions are cyclic
static bool value(std::vector<Def> const &d, int i, std::string &res, int depth = 0) {
    if (depth > 3) return false;
    auto &x = d[i];
    std::string o;
    if (x.kind == 0) { res = names[i]; return true; }
    if (x.kind >= 2 && x.kind != 7 && !value(d, x.to, o, depth + 1)) return false;
    switch (x.kind) {
        case 1: res = std::to_string(x.num); break;
        case 2: res = "(" + o + ")"; break;
        case 3: res = "f(" + o + ",(7,))"; break;
        case 4: res = "(-" + o + ")"; break;
        case 5: res = "(" + o + "+1)"; break;
        case 6: res = "(" + o + ",g(" + o + "))"; break;
        case 7: res = "\"a\""; break;
    }
    return true;
}
static std::string defText(std::vector<Def> const &d, int i) {
    auto &x = d[i];
    std::string o = names[x.to], n = "#const " + std::string(names[i]) + " = ";
    switch (x.kind) {
        case 0: return "";
        case 1: return n + std::to_string(x.num) + ". ";
        case 2: return n + o + ". ";
        case 3: return n + "f(" + o + ",(7,)). ";
        case 4: return n + "-" + o + ". ";
        case 5: return n + o + "+1. ";
        case 6: return n + "(" + o + ",g(" + o + ")). ";
    }
    return n + "\"a\". ";
}
static std::string fill(std::string const &s, std::string const &a, std::string const &b) {
    std::string r;
    for (auto c : s) if (c == '$') r += a; else if (c == '%') r += b; else r += c;
    return r;
}
static const char *theory = "#theory a { b { + : 2, binary, left }; &a/0 : b, {<=,=}, b, any }. ";
static const char *prgs[] = {
    /* 0*/ "p($,f(%,$),-$). q(X) :- X = ($;%). a(1). not_a :- not a(1). h(|%|,$). r(X) :- p(X,_,_), X != %.",
    /* 1*/ "{a; b(1..2)}. a($) :- b(X), X < %. c :- a, not b($). :- a($), not not b(%). -p($,%).",
    /* 2*/ "{b; -b(1)}. -a. d :- -a, not -b(1). -b :- b. -b(X) :- X = $, b(X). a :- not -a.",
    /* 3*/ "{a(0..2)}. p :- $ < #sum { X,% : a(X), X != $; $,x : a(%) } <= %. q(X) :- X = #count { $; % : a($); Y,x : a(Y) }. s :- #max { % : a(0); f($) : a(1) } >= $.",
    /* 4*/ "{a(0..1)}. p($..%). q(X) :- X = %..2, X < $. p(X) : a(X), X = (0;$) :- a(%). x(@a($,%)). 1 { b(X) : a(X) } $. #sum { X,% : c(X) : a(X) } <= %.",
    /* 5*/ "{a; b; c(1)}. #show a/0. #show c/1. #show -c/1. #show a($) : b. #show % : not a. #minimize { $@1,%; 1@%,y : a }. :~ b, not c($). [%,$]",
    /* 6*/ "{a; b(0..2)}. #heuristic b($) : a. [%@1,sign] #heuristic a. [1@$,level] #edge ($,%) : a. #edge (x,f($)) : b(%). #project a/0. #project b(%) : a. #external e($) : a. [false] #external b(%).",
    /* 7*/ "{a}. &a { $,f(%) : a; [$ + %, a($)] } <= $. q(%) :- &a { x : b(%) } = %. {b(%)}.",
    /* 8*/ "#defined a/0. #defined b/1. q :- a, b($). a | b(%) :- not c. r :- not a : b($). {q(X) : X = $..%}.",
};
constexpr int N = sizeof(prgs) / sizeof(*prgs);
static std::string ground(std::string const &s, bool &ok) {
    Session x(true);
    x.ctx.fun = [](std::string const &n, SymSpan args) { SymVec r; r.push_back(fun(("r" + n).c_str(), SymVec(begin(args), end(args)))); return r; };
    ok = x.run(s);
    return x.text.str();
}
static void expand() {
    int p = parts("case", N), kc = 0;
    std::vector<Def> d(3);
    // negations and signs of undefined constants cannot be told apart from names in theory terms
    bool th = p == 7;
    int maxTo = (int)symx_param("to", 2);
    for (int i = 0; i < 3; ++i) {
        auto n = names[i] + std::string(".");
        static const int last[] = {0, 1, 7};
        if (i == 2) { kc = symx_choose("c.kind", 0, 2); d[i].kind = last[kc]; }
        else d[i].kind = symx_choose((n + "kind").c_str(), 0, 6);
        if (d[i].kind == 1) d[i].num = symx_int((n + "num").c_str(), 0, 2);
        if (d[i].kind >= 2 && d[i].kind < 7) d[i].to = (i + symx_choose((n + "to").c_str(), 1, maxTo)) % 3;
        if (th && (d[i].kind == 4 || d[i].kind == 5)) symx_end();
    }
    std::string v[3], defs;
    bool acyclic = true;
    for (int i = 0; i < 3; ++i) { acyclic = value(d, i, v[i]) && acyclic; defs += defText(d, i); }
    bool after = pick("after", 2);
    std::string s = fill(prgs[p], "a", "b");
    s = after ? s + " " + defs : defs + s;
    if (th) s = theory + s;
    symx_observe("program", s);
    bool ok = false;
    std::string t = ground(s, ok);
    symx_assert(ok == acyclic, "accepted unless cyclic");
    if (!acyclic || !ok) return;
    std::string f = fill(prgs[p], v[0], v[1]);
    if (th) f = theory + f;
    symx_observe("replaced", f);
    bool okf = false;
    std::string u = ground(f, okf);
    symx_assert(okf, "replaced program accepted");
    symx_observe("text", t);
    symx_observe("expected", u);
    symx_assert(t == u, "same ground program");
}
// definitions of one constant: by default, overriding, from outside
static void priority() {
    int n = symx_choose("n", 1, 3);
    std::string s = "p(a). ";
    int defaults = 0, overrides = 0, val = 0, dval = 0;
    Session x;
    bool outside = symx_choose("outside", 0, 1);
    if (outside) { val = symx_int("v", INT32_MIN, INT32_MAX); x.define("a", num(val)); ++overrides; }
    for (int i = 0; i < n; ++i) {
        auto c = std::to_string(i);
        int k = symx_choose(("k" + c).c_str(), 0, 2), v = symx_int(("v" + c).c_str(), 0, 9);
        s += "#const a = " + std::to_string(v) + "." + (k == 1 ? " [default] " : k == 2 ? " [override] " : " ");
        if (k == 2) { val = v; ++overrides; } else { dval = v; ++defaults; }
    }
    bool ok = x.run(s);
    if (overrides > 1 || (!overrides && defaults > 1)) { symx_assert(!ok, "redefinition"); return; }
    if (defaults <= 1) symx_assert(ok, "accepted");
    if (!ok) return;
    symx_assert(x.rec.outs.size() == 1, "one atom");
    auto sym = x.rec.outs[0].sym.args()[0];
    symx_assert(sym.type() == SymbolType::Num && sym.num() == (overrides ? val : dval), "value");
}
// symbols given by programs instead of text
static void symbols() {
    int v = symx_int("v"), kind = symx_choose("kind", 0, 5), pos = pick("pos", 2), chain = pick("chain", 2), cv = symx_choose("value", 0, 3);
    Session x(true), y(true);
    bool neg = symx_choose("neg", 0, 1), used = symx_choose("used", 0, 1);
    Location l("<cmd>", 1, 1, "<cmd>", 1, 1);
    auto mk = [&](Symbol k) {
        SymVec a;
        Symbol r;
        switch (kind) {
            case 0: r = k; break;
            case 1: a = {k}; r = fun("f", a); break;
            case 2: a = {num(1), k, k}; r = fun("f", a); break;
            case 3: a = {num(v), num(2)}; r = fun("f", a); break;
            case 4: a = {fun("g", {num(1), k}), num(v)}; r = fun("f", a); break;
            default: a = {Symbol::createId("k", true), k}; r = fun("f", a); break;
        }
        return r;
    };
    Symbol val = cv == 0 ? num(v) : cv == 1 ? fun("h", {num(v)}) : cv == 2 ? Symbol::createFun("h", SymSpan{nullptr, 0}, true) : Symbol::createStr("s");
    if (neg && kind == 0 && (cv == 3 || cv == 0)) symx_end();
    if (kind == 5 && cv == 3) symx_end();
    auto sgn = [](Symbol s) { return s.type() == SymbolType::Num ? num(-s.num()) : s.flipSign(); };
    Symbol wval = val;
    if (chain) { if (neg || !used || kind == 5) symx_end(); wval = fun("m", {fun("n", {num(1), val}), val}); }
    Symbol in = mk(id("k")), out = used ? mk(wval) : in;
    if (used && kind == 5) out = fun("f", {sgn(val), val});
    if (neg) { in = in.flipSign(); out = sgn(out); }
    auto build = [&](Session &s, Symbol z, bool def) {
        if (def && chain) {
            // definitions with symbols as values, in any order
            static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            for (int i : ord[symx_choose("order", 0, 5)]) {
                Symbol w = i == 0 ? fun("m", {id("u"), id("w")}) : i == 1 ? fun("n", {num(1), id("w")}) : val;
                static const char *nm[] = {"k", "u", "w"};
                s.defs.add(l, nm[i], make_locatable<ValTerm>(l, w), false, s.log);
            }
        }
        else if (def) { s.parse("#const k = u. #const u = w. "); s.defs.add(l, "w", make_locatable<ValTerm>(l, val), false, s.log); }
        else s.defs.add(l, "other", make_locatable<ValTerm>(l, val), false, s.log);
        auto &b = *s.pb;
        auto t = b.term(l, z);
        auto args = b.termvec(b.termvec(), t);
        auto lit = b.predlit(l, NAF::POS, b.predRep(l, false, "p", b.termvecvec(b.termvecvec(), args)));
        b.rule(l, b.headlit(lit));
        if (pos == 1) { auto t1 = b.term(l, z), t2 = b.term(l, z); b.rule(l, b.headlit(b.predlit(l, NAF::POS, b.predRep(l, false, "q", b.termvecvec(b.termvecvec(), b.termvec(b.termvec(), b.term(l, b.termvec(b.termvec(b.termvec(), t1), t2), true))))))); }
        bool ok = s.prepare();
        if (ok) { s.begin(); s.groundParts({{"base", {}}}); s.end(); }
        return ok;
    };
    if (!used) out = in;
    bool ok = build(x, in, used) && build(y, out, false);
    symx_assert(ok, "accepted");
    auto tx = x.text.str(), ty = y.text.str();
    symx_observe("text", tx);
    symx_observe("expected", ty);
    symx_assert(tx == ty, "same ground program");
}
// a constant defined in terms of itself
static void self() {
    static const char *d[] = {"f(a)", "-a", "(a,1)", "a+1", "a"};
    int i = symx_choose("d", 0, 4);
    std::string s = "#const a = " + std::string(d[i]) + ". p(a).";
    bool ok = false;
    auto t = ground(s, ok);
    symx_assert(i == 4 ? ok && t == "p(a).\n" : !ok, "constant defined by itself");
}
int main() {
    switch (pick("mode", 4)) {
        case 0: expand(); break;
        case 1: priority(); break;
        case 2: symbols(); break;
        case 3: self(); break;
    }
    symx_reach("end");
}
