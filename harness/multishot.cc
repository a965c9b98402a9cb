// grounding in several steps, with cleanup between them, means the same as the program all parts make up
#include "asp.hh"
#include "facts.hh"
using namespace H;
struct Case { char const *base, *step; };
// the program with externals that got a definition being regular atoms
static Recorded defined(Recorded const &r) {
    Recorded x = r;
    std::set<Atom_t> heads;
    for (auto &u : r.rules) heads.insert(u.head.begin(), u.head.end());
    x.exts.erase(std::remove_if(x.exts.begin(), x.exts.end(), [&](RExt const &e) { return heads.count(e.atom) > 0; }), x.exts.end());
    return x;
}
static std::string name(Recorded const &r, Atom_t a) { for (auto &o : r.outs) if (!o.cond && o.atom == a) return str(o.sym); return "?"; }
static std::set<std::string> models(Recorded const &r0, SymVec const &syms) {
    Recorded r = defined(r0);
    std::set<std::string> res;
    Models m(r);
    m.each([&] {
        if (!symx_concrete(m.valid)) return;
        std::string s;
        for (auto &x : syms) s += symx_concrete(m.shown(x)) ? "1" : "0";
        std::set<int> prios;
        for (auto &c : r.mins) prios.insert(c.prio);
        for (auto p : prios) if (auto c = symx_concrete(m.cost(p))) s += " " + std::to_string(p) + ":" + std::to_string(c);
        std::set<std::string> st;
        for (auto &h : r.heus) { int v = 1; for (auto l : h.body) v &= m.flit(l); if (v) st.insert(name(r, h.atom) + "," + std::to_string(h.type) + "," + std::to_string(h.bias)); }
        for (auto &x : st) s += " " + x;
        res.insert(s);
    });
    return res;
}
static std::string attr(Recorded const &r0) {
    Recorded r = defined(r0);
    std::map<std::string, int> e;
    std::set<std::string> p;
    for (auto &x : r.exts) { auto n = name(r, x.atom); e[n] = x.val; }
    for (auto x : r.project) p.insert(name(r, x));
    std::string res;
    for (auto &x : e) if (x.second != 3) res += x.first + "=" + std::to_string(x.second) + " ";
    for (auto &x : p) res += x + " ";
    return res;
}
static std::string subst(std::string s, int v) {
    std::string r;
    for (auto c : s) r += c == '$' ? "(" + std::to_string(v) + ")" : std::string(1, c);
    return r;
}
int main() {
    static const Case cases[] = {
        /* 0*/ {"{a(0..2)}.", "p($) :- a($). p($) :- p(X), r(X,$), X < $."},
        /* 1*/ {"{a(0..2)}.", "p($) :- a($), not p($-1). :- p($), r($-1,$), a($-1)."},
        /* 2*/ {"{a(0..2)}.", "#external q($+1). :- q($), r($,_). q($) :- a($)."},
        /* 3*/ {"{a(0..2)}.", "c($,N) :- N = #count { X : a(X), X <= $ }."},
        /* 4*/ {"{a(0..2)}.", ":~ a(X), r(X,$). [X@1,X] :~ a($), r($,X). [-1@1,X]"},
        /* 5*/ {"{a(0..2)}. #show.", "#show f(X) : a(X), r(X,$). #show f(0) : not a($)."},
        /* 6*/ {"{a(0..2)}.", "{b($)}. n($) :- not b($), not b($-1), r($,_). m($) :- not n($), not r(_,$)."},
        /* 7*/ {"{a(0..2)}.", "ok($) :- a(X) : r(X,$). d($); e(X) : r(X,$), a(X)."},
        /* 8*/ {"{a(0..2)}.", "w($,X) :- r(X,$), not a($). v($) :- w($,_). v($) :- w(Y,_), Y < $, a(Y)."},
        /* 9*/ {"{a(0..2)}.", "-a($) :- r($,_). {b($)}. -b(X) :- a(X), r(X,$), X < $."},
        /*10*/ {"f(0).", "f($) :- f(X), X < $. {a($)}. g($) :- f($), not a($-1), r($,$). a($) :- g($-1)."},
        /*11*/ {"{a(0..2)}.", "s($) :- 1 <= #sum { X,Y : s(X), r(X,Y), X < $; 1 : a($); -1,X : r($,X) }."},
        /*12*/ {"{a(0..2)}.", "{x($)}. #external q($). :- not q($), x($). #external q($-1). [release]"},
        /*13*/ {"{a(0..2)}. #heuristic a(X) : r(X,_). [X,true]", "#project a(X) : r(X,$). #heuristic a($) : a(X), r(X,$). [$,sign]"},
        /*14*/ {"{a(0..2)}.", "1 { b($,X) : r(X,_) } 1 :- a($). :- b($,X), b(Y,X), Y < $."},
        /*15*/ {"{a(0..1)}. a(2).", "p($) :- not a($). q($) :- not not a($), 1 { a(X) : r(X,$) }. :- p(0)."},
        /*16*/ {"{a(0..2)}. :- a(0). :- not a(1). #show p/1.", "p($) :- a($). p($) :- not a(X), r(X,$). :~ a(X), r($,X). [1,X] #show g(X,$) : p(X), X <= $, not a(X)."},
        /*17*/ {"{a(0..2)}. :- a(0).", "p($) :- #sum { 1,X : a(X), r(X,$); 2 : p(X), X < $ } >= 1. q($) :- a(X) : r($,X). {a($+2)}. -p($) :- a($+2), r($,$)."},
        /*18*/ {"#external a(X) : X = 0..2. [free]", "p($) :- a($), not p(X), r(X,$), X < $. #external a($). [true]"},
    };
    constexpr int N = sizeof(cases) / sizeof(*cases);
    int n = (int)symx_param("n", 2), D = 3, c = parts("case", N), late = pick("late", 2), mode = pick("mode", 4), clean = pick("clean", 3), q = (int)symx_param("queries", 0);
    (void)D;
    int x[8], y[8];
    SymVec par;
    std::string ps, facts;
    for (int i = 0; i < n; ++i) {
        auto v = std::to_string(i);
        x[i] = symx_int(("x" + v).c_str(), 0, 2), y[i] = symx_int(("y" + v).c_str(), 0, 2);
        par.push_back(num(x[i])); par.push_back(num(y[i]));
        ps += (i ? "," : "") + std::string("x") + v + ",y" + v;
        facts += "r(x" + v + ",y" + v + "). ";
    }
    // the first step may be 0 or 1, the second is later
    int p1 = pick("p1", 2), p2 = p1 + 1;
    auto &k = cases[c];
    std::string step;
    for (auto ch : std::string(k.step)) step += ch == '$' ? std::string("t") : std::string(1, ch);
    symx_observe("base", k.base);
    symx_observe("step", k.step);
    std::string base = "#program base(" + ps + "). " + facts + k.base;
    Session s;
    bool ok = s.parse(late ? base : base + " #program step(t). " + step) && s.prepare();
    symx_assert(ok, "accepted");
    auto flat = [&](int steps) {
        Session f;
        std::string t = base;
        auto S = [](int i) { return std::to_string(i); };
        // later external statements supersede earlier ones
        if (c == 12) {
            for (int i = 0; i < steps; ++i) t += " {x(" + S(i + p1) + ")}. :- not q(" + S(i + p1) + "), x(" + S(i + p1) + ").";
            if (steps) t += " #external q(" + S(steps - 1 + p1) + ").";
            steps = 0;
        }
        if (c == 18) {
            t = t.substr(0, t.find("#external")) + "#external a(X) : X = 0..2" + (steps > 0 ? ", X != " + S(p1) : "") + (steps > 1 ? ", X != " + S(p2) : "") + ". [free]";
        }
        if (steps > 0) t += " " + subst(k.step, p1);
        if (steps > 1) t += " " + subst(k.step, p2);
        symx_assert(f.run(t, par), "accepted flat");
        return f.rec;
    };
    auto same = [&](int steps) {
        Recorded f = flat(steps);
        SymVec syms;
        for (auto *r : {&s.rec, &f}) for (auto &o : r->outs) { bool known = false; for (auto &z : syms) known = known || z == o.sym; if (!known) syms.push_back(o.sym); }
        symx_assert(models(s.rec, syms) == models(f, syms), "same-models");
        symx_assert(attr(s.rec) == attr(f), "same-externals-and-projection");
    };
    auto cleanup = [&] {
        if (!clean) return;
        Recorded r = defined(s.rec);
        std::map<Atom_t, int> ext;
        for (auto &e : r.exts) ext[e.atom] = e.val;
        for (auto &e : r.exts) if (e.val != 3 && ext[e.atom] != 3) e.val = 0;
        std::map<Atom_t, std::pair<int, int>> seen; // possible values
        Models m(r);
        bool any = false;
        m.each([&] {
            if (!symx_concrete(m.valid)) return;
            any = true;
            for (size_t i = 0; i < m.atoms.size(); ++i) { if (symx_concrete(m.val[i])) seen[m.atoms[i]].second = 1; else seen[m.atoms[i]].first = 1; }
        });
        if (!any) return;
        // the solver may know fewer consequences
        auto look = [&](unsigned uid) {
            auto e = ext.find(uid);
            bool isExt = e != ext.end() && e->second != 3;
            auto it = seen.find(uid);
            auto v = Potassco::Value_t::Free;
            if (it != seen.end() && (clean == 1 || uid % 2 == 0)) {
                if (!it->second.first) v = Potassco::Value_t::True;
                else if (!it->second.second) v = Potassco::Value_t::False;
            }
            return std::make_pair(isExt, v);
        };
        s.out->simplify(look);
    };
    // the symbols reported for a model
    auto queries = [&] {
        Recorded r = defined(s.rec);
        SymVec syms;
        for (auto &o : r.outs) { bool known = false; for (auto &z : syms) known = known || z == o.sym; if (!known) syms.push_back(o.sym); }
        Models m(r);
        m.each([&] {
            if (!symx_concrete(m.valid)) return;
            auto look = [&](unsigned uid) { int l = (int)uid; auto it = m.idx.find((Atom_t)std::abs(l)); bool v = it != m.idx.end() && symx_concrete(m.val[it->second]); return l < 0 ? !v : v; };
            for (int comp = 0; comp < 2; ++comp) {
                auto got = s.out->atoms((unsigned)Output::ShowType::Shown | (comp ? (unsigned)Output::ShowType::Complement : 0), look);
                int once = 1;
                std::multiset<std::string> g, e;
                for (auto &z : got) g.insert(str(z));
                for (auto &z : syms) if (symx_concrete(m.shown(z)) != comp) e.insert(str(z));
                if (!comp) symx_assert(g == e, "model-symbols");
                // what was removed as false may be missing
                else for (auto &z : g) once &= e.count(z) == g.count(z);
                symx_assert(once, "complement-symbols");
            }
        });
    };
    std::vector<std::vector<std::pair<std::string, SymVec>>> plan;
    std::pair<std::string, SymVec> b{"base", par}, s1{"step", {num(p1)}}, s2{"step", {num(p2)}};
    if (mode == 0) plan = {{b}, {s1}, {s2}};
    else if (mode == 1) plan = {{b, s1}, {s2}};
    else if (mode == 2) plan = {{b}, {s1, s2}};
    else plan = {{s2, s1, b}};
    if ((late && (mode == 1 || mode == 3)) || (c == 12 && mode > 1) || (c == 18 && mode > 0)) { symx_assume(false); }
    int steps = 0;
    for (size_t i = 0; i < plan.size(); ++i) {
        if (i) cleanup();
        if (i == 1 && late) {
            Location l("<block>", 1, 1, "<block>", 1, 1);
            s.parser->pushBlock("step", {{l, "t"}}, step, s.log);
            s.parser->parse(s.log);
            symx_assert(!s.log.hasError() && s.prepare(), "accepted late");
        }
        s.begin(true);
        s.groundParts(plan[i]);
        s.end();
        s.out->reset(true);
        for (auto &z : plan[i]) steps += z.first == "step";
        same(steps);
        if (q) queries();
    }
    symx_reach("end");
}
