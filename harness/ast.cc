// programs read through syntax trees mean what their text means; printed trees are read as the same trees; copies are equal and independent; comparison is an order
#include "ast.hh"
#include <set>
using namespace H;
#define TH "#theory t { e { + : 1, binary, left; - : 2, unary; <? : 3, binary, right; - : 1, binary, left }; &a/1 : e, {<=, =}, e, any; &b/0 : e, any; &d/0 : e, directive }. "
static const char *prgs[] = {
    /* 0*/ "d(0..3). p(`u`N). q(X`o`N) :- d(X), X`r`N.",
    /* 1*/ "d(1..2). {e(X)} :- d(X). p :- `s`N `r `a { `eX,Y: e(X), `nd(Y); 1 }.",
    /* 2*/ "d(1..2). {e(X)} :- d(X). p :- `s1 `r `a { X,Y: e(X), d(Y), `nd(X) } `r `N.",
    /* 3*/ "d(1..2). {e(X)} :- d(X). `N `r `a { `e1,X: f(X): `ne(X), d(X); 2: g } :- `ng, e(1).",
    /* 4*/ "d(1..2). {e(X): d(X)} `r `N :- `s1 `r { e(X): `nd(X); d(3) } `r 2.",
    /* 5*/ "d(1..2). {e(X)} :- d(X). f(X): `ne(X); g; `sh: `s#true | `N`r2 :- `ne(1).",
    /* 6*/ "d(1..2). {e(X)} :- d(X). p :- `sf(X): e(X), `nd(X); `s#false: `ne(2); `N`r1`r0: d(1).",
    /* 7*/ "{a;b}. #external c(`N) : `sa. [`v] #external e. #minimize { `N@2,a: `sa; 1,(b,): b }. :~ `nb, X=`N. [-1@X,X] :~ a. [2] p. #maximize{X: a, X=1}.",
    /* 8*/ "{a;b(1)}. #show a/0. #show -b/`N. #show (a,`uX): `sb(X). #show. #project b/1. #project a: `sb(1). #defined -zz/2. #show b(1;2).",
    /* 9*/ "{a;b}. #heuristic a: `sb. [`N@2,`h] #heuristic b(1). [1,`h] #edge (1,`N;2,b): `sa. #edge(a,b).",
    /*10*/ "#const n=`N. `d #const m=n`o2. `d p(n,m). #program base. q(n). #program other(x,n). p(x). #program base. r. #const k=\"x\". p(k).",
    /*11*/ TH "{c;d}. &a(`N) { x+ -y<?3,[z,{}],(),(1,),(1,2): `sc; \"s\": d, `nc } <= -f(1,X)-4 :- `sd, X=`N. &d { (1+2)-3; f }. p :- `s&a(1) { - x: c }. `n&b{} :- `nc. &b{x;y}.",
    /*12*/ "-p(1). -q(X`o1) :- -p(X), `sp(X), X`r`N. p(-a,-(-1),|-2|,|-3;4|,~`N,()). p(((1,2),),(3,4),(5;6),(7,8;),f(;9)). -q :- `n-r. {-r}.",
    /*13*/ "p(\"a\\n\\\\\\\"%*b\", #inf, #sup, _x', f(3,1)) :- X=1. p(X,Y) :- X`r Y`r `N, X=1..2, Y=(1;`N). q :- p(_,_), `s p(1,_).",
    /*14*/ "% line comment `N\n p. %* block *% q. #script (lua) x -- y\n z #end. r(`N). %* a %* nested *% *% #defined p/1.",
    /*15*/ "p(X) :- q(X`o`N), q(X), `sr(1`o X). q(1..3). r(2). :- `sp(1), p(Y), not p(Y+`N). s(X) :- X`r`N, q(X).",
    /*16*/ "p(`u@f(`N,g(@f(2)),a)). q(X) :- X=@f(1;`N). r :- @f(1)`r@f(2). s(@f(X`oY)) :- X=1, Y=`N. t(@h). u(@h()).",
    /*17*/ TH "p :- `n&a(`N) { f,f(x),g: `n#true, p; : p; : } <= f. &b { }. &b. &a(1) { } = 1+ -2. {p}.",
    /*18*/ "{a;b}. p :- 1`r#sum{ :a; : ; 1:b; 2,1; : `nb }. q :- #count { : } `r `N. r :- #sum {}`r0, `s{}`r 1, {}.",
    /*19*/ "{a;b}. p :- a: ; b: . c; d: :- `na. e: . #show b: a: . f : #true :- `N`r1: a.",
    /*20*/ TH "p(X) :- q. r :- Y`r1, s(Y), #sum{X:s(X`o Z)}. &a(1) { ++x; 1+ +1 } = 1. p :- &b { x*y }. p :- &z { }. &d{}.",
    /*21*/ TH "p :- &a { x }. q :- &b{x} = 1. &a(1) { x } != 2. r :- `n&a(1) { z: X=1, not q(Y) } = -1. &a(1) {x} = 1++1.",
    /*22*/ "p :- not p(`N). p(X) :- X=1/0. q(X) :- X=a+`N. `sr(1/`N) :- `sr(`N). #const n=1. #const n=2. s(n).",
    /*23*/ "p(`N`oa). q(|a|,-\"b\"`o1). r(X) :- X=@f(1`oc). #minimize{a@`N,1; 1@x}. #external s(1/0): p(X). [x] #edge(1/0,2). #show -t/`N. #defined -t/`N.",
};
static const int P = sizeof(prgs) / sizeof(*prgs);
static SymVec fn(std::string const &n, SymSpan a) {
    SymVec r;
    if (n == "f") { for (auto &x : a) r.push_back(x); r.push_back(num(7)); }
    else r.push_back(id("h"));
    return r;
}
struct Res { bool ok; std::string msgs, out, defs; };
static void finish(Session &x, Res &r, bool ok) {
    if (ok) ok = groundIt(x);
    r.ok = ok;
    r.msgs = x.msgs.all;
    if (ok) r.out = x.text.str();
}
static Res direct(std::string const &s, bool lenient = false) {
    Session x(true);
    x.ctx.fun = fn;
    Res r;
    finish(x, r, x.parse(s));
    return r;
}
static Res through(Trees const &t, bool ok) {
    Session x(true);
    x.ctx.fun = fn;
    Res r;
    if (ok) ok = addTrees(x, t);
    finish(x, r, ok);
    return r;
}
// (mode 0) meaning and messages of programs added as trees
static void meaning() {
    int c = parts("case", P);
    std::string s = fill(prgs[c]);
    symx_observe("program", s);
    auto a = direct(s);
    Trees copies;
    std::string msgs;
    bool ok;
    {
        TreeReader t;
        ok = t.read(s);
        msgs = t.msgs.all;
        auto b = through(t.trees, ok);
        symx_observe("direct", a.msgs);
        symx_observe("trees", msgs + b.msgs);
        symx_assert(a.ok == (ok && b.ok), "accepted alike");
        symx_assert(a.msgs == msgs + b.msgs, "same messages at the same positions");
        symx_assert(a.out == b.out, "same ground program");
        for (auto &x : t.trees) {
            auto bad = badLocation(*x);
            if (!bad.empty()) symx_observe("misplaced", bad);
            symx_assert(bad.empty(), "positions of parts lie within");
        }
        // adding trees leaves them as they were, and copies stand on their own
        auto again = through(t.trees, ok);
        symx_assert(again.out == b.out && again.msgs == b.msgs, "trees can be added again");
        for (auto &x : t.trees) copies.push_back(x->deepcopy());
    }
    auto d = through(copies, ok);
    symx_assert(a.out == d.out && a.msgs == msgs + d.msgs, "copies mean the same");
    symx_reach(a.ok ? "accepted" : "rejected");
}
static std::multiset<std::string> lines(std::string const &s) {
    std::multiset<std::string> r;
    size_t b = 0;
    for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') { r.insert(s.substr(b, i - b)); b = i + 1; }
    return r;
}
// (mode 1) printed trees are read as the same trees
static void printing() {
    int c = parts("case", P);
    std::string s = fill(prgs[c]);
    symx_observe("program", s);
    TreeReader t, u;
    bool ok = t.read(s);
    if (!ok) { symx_reach("rejected"); return; }
    // the first statement says that the base program starts, with or without text for it
    symx_assert(!t.trees.empty() && text(t.trees[0]) == "#program base.", "base program first");
    std::string x = text(Trees(t.trees.begin() + 1, t.trees.end()));
    symx_observe("printed", x);
    symx_assert(u.read(x), "printed program is read");
    symx_observe("messages", u.msgs.all);
    std::string y = text(Trees(u.trees.begin() + 1, u.trees.end()));
    symx_assert(x == y, "printed alike again");
    auto a = through(t.trees, true), b = through(u.trees, true);
    // where statements with and without conditional literals are written alike, the order of their instances may differ
    symx_assert(a.ok == b.ok && (c == 19 ? lines(a.out) == lines(b.out) : a.out == b.out), "printed program means the same");
    // case 19 has conditional literals with empty conditions
    size_t off = !u.trees.empty() && !t.trees.empty() && c != 19 ? 1 : 0;
    if (off) {
        symx_assert(t.trees.size() == u.trees.size(), "as many statements");
        for (size_t i = 0; i < t.trees.size() && i < u.trees.size(); ++i) {
            bool eq = *t.trees[i] == *u.trees[i];
            if (!eq) symx_observe("differs", text(t.trees[i]) + " / " + text(u.trees[i]));
            symx_assert(eq, "same trees");
            symx_assert(t.trees[i]->hash() == u.trees[i]->hash(), "same hash");
        }
    }
    symx_reach("accepted");
}
static void collect(AST const &a, std::vector<AST const *> &r) {
    r.push_back(&a);
    below(a, [&](AST const &x) { collect(x, r); });
}
struct Change {
    bool operator()(int &x) { x = x == 0 ? 1 : 0; return true; }
    bool operator()(Symbol &x) { x = x == num(77) ? num(78) : num(77); return true; }
    bool operator()(Location &) { return false; }
    bool operator()(String &x) { x = String(x == String("zz") ? "zzz" : "zz"); return true; }
    bool operator()(SAST &x) { x = SAST{clingo_ast_type_comment}; return true; }
    bool operator()(Input::OAST &x) { x = Input::OAST{x.ast.get() ? SAST{nullptr} : SAST{clingo_ast_type_comment}}; return true; }
    bool operator()(AST::StrVec &x) { x.push_back("zz"); return true; }
    bool operator()(AST::ASTVec &x) { if (x.empty()) x.emplace_back(clingo_ast_type_comment); else x.pop_back(); return true; }
};
// (mode 2) copies are equal, and changing a copy leaves the original alone
static void copies() {
    int c = parts("case", P);
    std::string s = fill(prgs[c]);
    symx_observe("program", s);
    TreeReader t;
    if (!t.read(s)) { symx_reach("rejected"); return; }
    int i = pick("statement", (int)t.trees.size());
    auto &a = t.trees[i];
    std::string was = text(a);
    symx_observe("statement", was);
    auto d = a->deepcopy(), f = a->copy();
    symx_assert(*a == *d && *a == *f && a->hash() == d->hash() && a->hash() == f->hash(), "copies are equal");
    symx_assert(text(d) == was && text(f) == was, "copies are printed alike");
    symx_assert(!(*a < *d) && !(*d < *a), "copies are not smaller");
    std::vector<AST const *> x, y, z;
    collect(*a, x); collect(*d, y); collect(*f, z);
    symx_assert(x.size() == y.size() && x.size() == z.size(), "copies have as many parts");
    bool shared = false;
    for (auto *u : x) for (auto *v : y) if (u == v) shared = true;
    symx_assert(!shared, "deep copies share nothing");
    bool same = x[0] != z[0];
    for (size_t k = 1; k < x.size() && k < z.size(); ++k) if (x[k] != z[k]) same = false;
    symx_assert(same, "plain copies share all parts");
    // change one attribute of one part of the deep copy and of the plain copy itself
    int k = pick("piece", (int)y.size());
    AST *n = const_cast<AST *>(y[k]);
    int m = 0;
    for (size_t j = 0; j < g_clingo_ast_attribute_names.size; ++j) m += n->hasValue(static_cast<clingo_ast_attribute_e>(j));
    if (m) {
        int at = pick("attribute", m);
        for (size_t j = 0; j < g_clingo_ast_attribute_names.size; ++j) {
            auto nm = static_cast<clingo_ast_attribute_e>(j);
            if (!n->hasValue(nm) || at-- != 0) continue;
            Change ch;
            bool changed = mpark::visit(ch, n->value(nm));
            if (k == 0) mpark::visit(ch, f->value(nm));
            symx_assert(text(a) == was, "original is left alone");
            symx_assert((*a == *d) == !changed, "changed copy differs");
            symx_assert((*a < *d || *d < *a) == changed, "changed copy is smaller or greater");
            symx_assert(!(*a < *d && *d < *a), "one is smaller");
            if (k == 0) symx_assert((*a == *f) == !changed && *d == *f, "changed plain copy differs");
        }
    }
    symx_reach("accepted");
}
// (mode 4) replacing pools: the results have none, and together mean what the statement means
#define PC "{c(1)}. c(2). d(1). {d(2)}. "
static const char *pools[] = {
    /* 0*/ PC "p((1;`N),f(2)) :- `sc(1;2). q((X;`N;1)..(2;3)) :- X=1, `n d(X;1). p(;2). p((),(1,;2,3)). q(((1;2);3),(`N;a)).",
    /* 1*/ PC "p :- (1;`N) `r X `r 2, c(X). p(X) :- X=(1;2;`N), `sX `r (1;2). p(X+(1;2)) :- X=1. r(-(1;2),|1;-2|,~(`N;1)).",
    /* 2*/ PC "p(1) :- `n c(1;`N): d(1;2). p(2) :- (1;`N)`rX: d(X;1). p(X) :- X=1..2, c(X): d(X;2). p(3) :- c(X): `sd(1;`N), X=1; d(2).",
    /* 3*/ PC "p(3;`N): c(1) | q(1). p(1;2): d(2). (1;2) `r (1;`N) :- d(2), c(1).",
    /* 4*/ PC "p :- `s(1;`N) `r `a { (1;2),X: c(X;1), d(X); 2: d(1;2) } `r 2. p(X) :- X = #sum { (1;2): c(1;2) }.",
    /* 5*/ PC "(0;`N) `r `a { (1;2),X: e(X;1): d(X); 2: f: d(1;2) } `r 2. #count { 1: e(1;`N): c(1) } :- d(2;`N).",
    /* 6*/ PC "0 `r { e(1;2): c(1;`N); f: d(1;2) } `r (1;2). q :- `s1 `r { c(1;2): d(1;`N); d(2) } `r (1;2).",
    /* 7*/ PC "#show p(1;`N): c(1;2). #show (1;2): c(1), `nd((1;2)). #external e(1;`N): c(1;2), d(1). [(true;free)] #project c(1;2): d((1;`N)).",
    /* 8*/ PC ":~ c(1;2), `sd((1;`N)). [(1;2)@1,(a;b),1] #minimize { (1;2)@1,X: c(X;1), d(X); (3;`N): d(1) }. :~ d(2). [1@(2;`N)]",
    /* 9*/ PC "#edge ((1;2),(a;`N)): c(1;2). #edge (1,2;3,(4;5)). #heuristic c(1;2): d(1;`N). [(1;2)@(3;`N),(sign;level)]",
    /*10*/ TH PC "&a(1;`N) { x: c(1), `nd(1;`N); y,z: d((1;2)) } <= 3 :- c(1). p :- `n&a(1;2) { x: d(1;2) }. &b { x: c(1;2) }.",
    /*11*/ PC "p(f(g(1;`N),(1;2)),a) :- c(1). -p(1;2) :- -p(`N;3), c(1). -p((1;2)+1). q(@f((1;`N),(2;3))) :- c(1).",
    /*12*/ PC "p(X;Y) :- c(X), d(Y), X `r Y `r (1;`N). q((X;Y),1) :- c(X;Y), X=Y, Y=1..2. q(X,(Y;1)) :- d(X), Y=(X;`N).",
    /*13*/ PC "r(1): d(2;`N) | r(2): c(1). r(4;5) | s.",
    /*14*/ "#const n=1. #defined p/1. #program base. #show p/1. % comment (1;2)\n p(`N). #script(lua) (1;2) #end. q(\"(1;2)\",n). #program a(k). x(1;2).",
};
static const int U = sizeof(pools) / sizeof(*pools);
static bool hasPool(AST const &a) {
    bool r = a.type() == clingo_ast_type_pool;
    below(a, [&](AST const &x) { r = r || hasPool(x); });
    return r;
}
// what a program means: its answer sets with terms, costs, heuristics, edges, externals and projection
static std::set<std::string> meaningOf(Recorded const &r) {
    std::set<std::string> res;
    std::map<Atom_t, std::string> names;
    for (auto &o : r.outs) if (!o.cond) names[o.atom] = str(o.sym);
    Models m(r);
    m.each([&] {
        if (!symx_concrete(m.valid)) return;
        std::set<std::string> x;
        for (auto &o : r.outs) {
            bool v = true;
            if (!o.cond) v = !o.atom || symx_concrete(m.flit((int)o.atom));
            else for (auto l : o.body) v = v && symx_concrete(m.flit(l));
            if (v) x.insert(str(o.sym));
        }
        std::set<int> prios;
        for (auto &c : r.mins) prios.insert(c.prio);
        for (auto p : prios) if (auto c = symx_concrete(m.cost(p))) x.insert(std::to_string(p) + ":" + std::to_string(c));
        auto add = [&](std::string const &t, Lits const &b) { for (auto l : b) if (!symx_concrete(m.flit(l))) return; x.insert(t); };
        for (auto &h : r.heus) add("h" + names[h.atom] + "," + std::to_string(h.type) + "," + std::to_string(h.bias) + "," + std::to_string(h.prio), h.body);
        for (auto &e : r.edges) add("e" + std::to_string(e.u) + "," + std::to_string(e.v), e.body);
        std::string t;
        for (auto &y : x) t += y + " ";
        res.insert(t);
    });
    std::set<std::string> p;
    for (auto &e : r.exts) p.insert(names[e.atom] + "=" + std::to_string(e.val));
    for (auto x : r.project) p.insert("project " + names[x]);
    std::string t = "all: ";
    for (auto &y : p) t += y + " ";
    res.insert(t);
    return res;
}
static bool record(Session &x, Trees const &t) {
    x.ctx.fun = fn;
    return addTrees(x, t) && groundIt(x);
}
static void unpooling() {
    int c = parts("case", U);
    std::string s = fill(pools[c]);
    symx_observe("program", s);
    TreeReader t;
    bool ok = t.read(s);
    if (!ok) { symx_reach("rejected"); return; }
    Trees all;
    std::string was = text(t.trees);
    for (auto &x : t.trees) {
        bool had = hasPool(*x);
        auto r = Input::unpool(x, clingo_ast_unpool_type_all);
        symx_assert(r.has_value() == had, "pools are replaced if there are some");
        if (!r.has_value()) { all.push_back(x); continue; }
        for (auto &y : *r) { symx_assert(!hasPool(*y), "no pool is left"); all.push_back(y); }
    }
    // conditional literals can be treated in two stages
    std::vector<AST const *> sub;
    for (auto &x : t.trees) collect(*x, sub);
    for (auto *z : sub) {
        if (z->type() != clingo_ast_type_conditional_literal) continue;
        SAST x{const_cast<AST *>(z)};
        auto lit = mpark::get<SAST>(x->value(clingo_ast_attribute_literal));
        auto &cond = mpark::get<AST::ASTVec>(x->value(clingo_ast_attribute_condition));
        auto poolIn = [](AST::ASTVec const &v) { bool r = false; for (auto &y : v) r = r || hasPool(*y); return r; };
        auto stage = [](Trees const &v, int type) {
            Trees r;
            for (auto y : v) { auto u = Input::unpool(y, type); if (u.has_value()) r.insert(r.end(), u->begin(), u->end()); else r.push_back(y); }
            return r;
        };
        auto a = stage({x}, clingo_ast_unpool_type_condition), b = stage({x}, clingo_ast_unpool_type_other);
        for (auto &y : a) symx_assert(!poolIn(mpark::get<AST::ASTVec>(y->value(clingo_ast_attribute_condition))) && text(mpark::get<SAST>(y->value(clingo_ast_attribute_literal))) == text(lit), "only conditions");
        for (auto &y : b) symx_assert(!hasPool(*mpark::get<SAST>(y->value(clingo_ast_attribute_literal))) && text(mpark::get<AST::ASTVec>(y->value(clingo_ast_attribute_condition))) == text(cond), "only what is not a condition");
        auto ab = lines(text(stage(a, clingo_ast_unpool_type_other))), ba = lines(text(stage(b, clingo_ast_unpool_type_condition))), all = lines(text(stage({x}, clingo_ast_unpool_type_all)));
        symx_assert(ab == all && ba == all, "stages commute");
    }
    symx_assert(text(t.trees) == was, "statements stay as they were");
    symx_observe("unpooled", text(all));
    if (c == 10) {
        auto a = through(t.trees, true), b = through(all, true);
        auto x = lines(a.out), y = lines(b.out);
        symx_assert(a.ok == b.ok && std::set<std::string>(x.begin(), x.end()) == std::set<std::string>(y.begin(), y.end()), "same ground program");
    } else {
        Session a, b;
        bool x = record(a, t.trees), y = record(b, all);
        symx_assert(x == y, "accepted alike");
        if (x && y) {
            auto u = meaningOf(a.rec), v = meaningOf(b.rec);
            symx_observe("original", [&] { std::string r; for (auto &z : u) r += z + "\n"; return r; }());
            symx_observe("now", [&] { std::string r; for (auto &z : v) r += z + "\n"; return r; }());
            symx_assert(u == v, "same answer sets");
        }
    }
    symx_reach("accepted");
}
static const char *sts[] = {"p(`N).", "p(`N,`N).", "-p(`N).", "p(-`N).", "p(`N..`N).", "p(`N;`N).", "p(f(`N)).", "p(@f(`N)).", "p((`N,)).", "p(X).",
    "p(\"`N\").", "p(`N) :- q.", "p(`N) :- not q.", "p :- `N=1.", "p :- `N<1.", "p :- q, r.", "p :- q: r(`N).", "p :- `N < {q}.", "p :- {q}.", "p :- `N < {q} < `N.",
    ":- #sum{1}>`N.", ":- #count{1}>`N.", ":- &a{}.", ":- &a{} = `N.", ":- &a{x + `N}.", ":- &a{x - `N}.", "#show p/`N.", "#show -p/`N.", "#const c=`N.", "#const c=`N. [override]",
    "#external p(`N). [free]", "#minimize{`N@1}.", "#theory t { e { + : `N, unary }; &a/0 : e, any }.", "#theory t { &a/`N : e, {=}, e, any }.", "#program p(q`N).", "p | q(`N)."};
static const int S = sizeof(sts) / sizeof(*sts);
// (mode 3) the comparison of trees is a total order that ignores positions, and equal trees have equal hashes
static void order() {
    auto read = [](int i, int n, bool vary) {
        std::string s, nm = std::string("N") + std::to_string(n);
        char d = vary ? static_cast<char>(symx_byte(nm.c_str(), '1', '9')) : '1';
        for (const char *c = sts[i]; *c; ++c) { if (*c == '`') { s += d; ++c; } else s += *c; }
        if (n == 1) s = "\n\n " + s;
        TreeReader t;
        t.read(s);
        return t.trees.back();
    };
    int i = parts("case", S), j = pick("other", S);
    auto a = read(i, 0, true), b = read(j, 1, true);
    symx_observe("trees", text(a) + " " + text(b));
    bool lt = *a < *b, gt = *b < *a, eq = *a == *b;
    symx_assert((lt ? 1 : 0) + (gt ? 1 : 0) + (eq ? 1 : 0) == 1, "smaller, greater, or equal");
    symx_assert(eq == (*b == *a), "equality is symmetric");
    symx_assert(!(*a < *a) && *a == *a, "equal to itself");
    symx_assert(eq == (text(a) == text(b)), "equal if printed alike");
    symx_assert(!eq || a->hash() == b->hash(), "equal trees have equal hashes");
    int step = (int)symx_param("step", 4);
    for (int k = (i + j) % step; k < S; k += step) {
        auto c = read(k, 2, false);
        symx_assert(!(lt && *b < *c) || *a < *c, "order is transitive");
        symx_assert(!(gt && *c < *b) || *c < *a, "order is transitive");
        symx_assert(!(*a < *c && *c < *b) || lt, "order is transitive");
    }
}
int main() {
    switch (symx_param("mode", 0)) {
        case 0: meaning(); break;
        case 1: printing(); break;
        case 2: copies(); break;
        case 3: order(); break;
        case 4: unpooling(); break;
    }
    symx_reach("end");
}
