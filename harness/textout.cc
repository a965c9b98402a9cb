// the ground program printed as text means the same as the ground program passed to a solver
#include "thmodel.hh"
using namespace H;
static char const *theory = "#theory t { term { + : 1, binary, left; - : 1, binary, left; - : 2, unary; * : 3, binary, right }; &sum/0 : term, {<=,=}, term, any; &d/1 : term, head }. ";
static void replaceAll(std::string &s, std::string const &a, std::string const &b) { for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b); }
// inserts the definitions of delayed literals and gives auxiliary predicates an ordinary name
static std::string resolve(std::string const &t) {
    std::map<std::string, std::string> defs;
    std::string res;
    for (size_t a = 0; a < t.size();) {
        auto e = t.find('\n', a);
        if (e == std::string::npos) e = t.size();
        std::string line = t.substr(a, e - a);
        a = e + 1;
        auto i = line.find(" <=> ");
        if (line.compare(0, 9, "#delayed(") == 0 && i != std::string::npos) defs[line.substr(0, i)] = line.substr(i + 5);
        else res += line + "\n";
    }
    for (int k = 0; k < 2; ++k) for (auto &d : defs) replaceAll(res, d.first, d.second);
    replaceAll(res, "#p_", "aux_");
    replaceAll(res, "#b(", "auxb(");
    replaceAll(res, "#p", "auxp");
    replaceAll(res, "auxproject", "#project");
    return res;
}
int main() {
    static const char *rules[] = {
        /* 0*/ "{h(0..2)}. p(X) :- h(X), not r(X,X), not not h(0).",
        /* 1*/ "h(X) | h(Y) :- r(X,Y).",
        /* 2*/ "h(Y) : r(X,Y) :- e(X).  q :- h(0).",
        /* 3*/ "{h(0..2)}. p(X) :- e(X), h(Y) : r(X,Y), Y != X.",
        /* 4*/ "{h(0..2)}. p :- W <= #sum { Y-1,Z : h(Z), r(Z,Y); 1,a : h(W) } < 2, e(W).",
        /* 5*/ "{h(0..2)}. p :- not #sum+ { Y,Z : h(Z), r(Z,Y); 2 } = 2.",
        /* 6*/ "{h(0..2)}. p :- 1 != #count { Y : h(Z), r(Z,Y); \"a\\\"b\",1 : h(0) } != 2.",
        /* 7*/ "{h(0..2)}. p :- #min { Y : h(Z), r(Z,Y); a : h(0); (1,) : h(1) } <= a. q :- #max { Y : h(Y); f(-1) : h(0) } > 1.",
        /* 8*/ "1 { h(Y) : r(X,Y) } 1 :- e(X).",
        /* 9*/ "1 <= #sum { Y,Z : h(Z) : r(Z,Y); -1 : h(0) } :- e(_).",
        /*10*/ "{h(0..2)}. #min { Y : g(Y) : h(Y) } = 1 :- r(_,1).",
        /*11*/ "{h(0..2)}. p(X) :- X = #sum { Y,Z : h(Z), r(Z,Y) }.",
        /*12*/ "{h(0..2)}. p(X) :- X = #max { Y,Z : h(Z), r(Z,Y); 5 }.",
        /*13*/ "{h(0..2)}. #minimize { Y@X,Z : h(Z), r(X,Y), Y != 0; -1 : h(0) }.",
        /*14*/ "{h(0..2)}. :~ h(X), r(X,Y). [Y-1@X,a,\"b\"] :~ not h(0). [2] :- h(1), h(2), e(0).",
        /*15*/ "{h(0..2)}. #show h/1. #show g(X) : h(X), r(X,_). #show (X,\"s\\n\") : r(X,X).",
        /*16*/ "{h(0..2)}. #show. #show -f(X) : h(X), not r(X,_).",
        /*17*/ "#external h(X) : r(X,_). p(X) :- h(X). #external h(Y) : r(Y,Y). [true]",
        /*18*/ "{h(0..2)}. #heuristic h(X) : r(X,Y), not h(Y). [X-Y@Y+1,sign]",
        /*19*/ "{h(0..2)}. #edge (X,Y) : r(X,Y), h(X). #edge (f(X),-1) : h(X).",
        /*20*/ "{h(0..2)}. #project h(X) : r(X,_).",
        /*21*/ "{-h(0..2)}. h(X) :- r(X,_), not -h(X). p((X,),(),-X) :- h(X).",
        /*22*/ "#external x. {h(0..2)}. &sum { X*2+a(Y) : h(X), r(X,Y); -1 } <= X-1 :- e(X).",
        /*23*/ "{h(0..2)}. p(X) :- e(X), &sum { X; f(X,\"a b\") : h(X), not h(0) } = 3.",
        /*24*/ "{h(0..2)}. &d(X) { X,1 : h(X); [X,2]; {3}; (4,) } :- e(X). q :- not &sum { } <= 1.",
        /*25*/ "p(X) :- r(X,_), not h(X). h(X) :- r(_,X), not p(X). q :- not not q.",
        /*26*/ "{h(X) : r(X,Y), Y > 0; g} <= 1. p :- { not h(X) : r(X,_) } 1.",
        /*27*/ "{a(0..1)}. p(X) :- a(Y), X = #sum { 1 : a(0); 2 : a(1); Z : r(Z,_) }, X > Y.",
        /*28*/ "{h(0..2)}. p(\"\\\\\",#inf,#sup,X) :- h(X), r(X,_).",
        /*29*/ "#const k = 1. {h(0..k)}. #project h/1. p :- h(X) : r(X,X).",
        /*30*/ "{h(1)}. p :- not h(Y) : r(1,Y). q :- not p, not not h(1), h(Y) : e(Y), not p.",
        /*31*/ "{h(0..2)}. not h(X) :- r(X,X). not not h(X) :- r(X,Y), X < Y. #false :- h(0), r(1,1).",
        /*32*/ "{h(0)}. p :- A != #sum { Z,Y : r(Z,Y); 1,p : p; 1 : h(0) } != B, v(A,B).",
        /*33*/ "{h(0..2)}. p :- A != #min { Z,Y : h(Z), r(Z,Y); 1 : h(0) } != B, v(A,B).  q :- not A < #max { Z : h(Z), r(Z,Y); 1 : q } != B, v(A,B).",
        /*34*/ "{h(0..2)}. 1 != #count { Y : g(Y) : h(Y), not r(_,Y) } != A :- v(A,_).",
    };
    constexpr int N = sizeof(rules) / sizeof(*rules);
    int D = (int)symx_param("D", 3), c = parts("case", N), n = (int)symx_param("n", c == 32 ? 1 : 2);
    std::string facts;
    for (int i = 0; i < n; ++i) {
        auto v = std::to_string(i);
        int x = symx_int(("x" + v).c_str(), 0, D - 1);
        bool con = c == 13 || c == 14 || c == 18;
        if (con) x = (int)symx_concrete(x);
        int y = symx_int(("y" + v).c_str(), 0, D - 1);
        if (con && c != 18) y = (int)symx_concrete(y);
        facts += "r(" + std::to_string(x) + "," + std::to_string(y) + "). ";
        if (!i) facts += "e(" + std::to_string(x) + "). ";
    }
    if (c >= 32) facts += "v(" + std::to_string(symx_choose("a", 0, 3)) + "," + std::to_string(symx_choose("b", 0, 3)) + "). ";
    std::string prg = std::string(rules[c]) + " " + facts, th = c >= 22 && c <= 24 ? theory : "";
    symx_observe("rules", rules[c]);
    Session a, b(true);
    bool ok = a.run(th + prg) && b.run(th + prg);
    symx_assert(ok, "accepted");
    std::string t = b.text.str();
    symx_observe("text", t);
    t = resolve(t);
    Session s;
    ok = s.run(th + t);
    symx_assert(ok, "text parses");
    SymVec syms;
    for (auto *r : {&a.rec, &s.rec}) for (auto &o : r->outs) { bool k = o.sym.type() == SymbolType::Fun && std::string(o.sym.name().c_str()).compare(0, 3, "aux") == 0; for (auto &x : syms) k = k || x == o.sym; if (!k) syms.push_back(o.sym); }
    auto ma = models(a.rec, syms), ms = models(s.rec, syms);
    symx_assert(ma == ms, "same-models");
    // externals with their values and projected atoms
    auto attr = [](Recorded const &r) {
        auto name = [&](Atom_t a) { for (auto &o : r.outs) if (!o.cond && o.atom == a) return str(o.sym); return std::string("?"); };
        std::map<std::string, int> e;
        std::set<std::string> p;
        for (auto &x : r.exts) { auto n = name(x.atom); if (n != "?") e[n] = x.val; }
        for (auto x : r.project) p.insert(name(x));
        std::string res = r.projected ? "P" : "";
        for (auto &x : e) res += x.first + "=" + std::to_string(x.second) + " ";
        for (auto &x : p) res += x + " ";
        return res;
    };
    symx_assert(attr(a.rec) == attr(s.rec), "same-externals-and-projection");
    symx_reach("end");
}
