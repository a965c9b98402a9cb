// theory terms are parsed by the priorities of their operators, theory atoms are accepted and instantiated as their definitions say
#include "thmodel.hh"
using namespace H;
// {{{ mode 0: operators with arbitrary priorities
struct Op { char const *name; bool unary, left; unsigned prio; };
struct Climb {
    std::vector<int> toks;   // >= 0: operator, -1: operand
    std::vector<Op> const &ops;
    size_t i = 0; int leaf = 0;
    std::string expr(int prev) {
        std::string l;
        int t = toks[i++];
        if (t < 0) { l = std::string("(x") + std::to_string(leaf++) + ")"; }
        else { auto a = expr(t); l = std::string("(") + ops[t].name + a + ")"; }
        while (i < toks.size()) {
            auto &b = ops[toks[i]];
            if (prev >= 0) {
                auto &p = ops[prev];
                if (!(b.prio > p.prio || (b.prio == p.prio && !b.left))) break;
            }
            int o = toks[i++];
            auto r = expr(o);
            l = "(" + l + ops[o].name + r + ")";
        }
        return l;
    }
};
static void operators() {
    static const char *names[] = {"+", "*", "-", "-", "not", "<?"};
    std::vector<Op> ops;
    Location loc("<t>", 1, 1, "<t>", 1, 1);
    Msgs msgs;
    Logger log([&msgs](Warnings c, char const *m) { ++msgs.count[static_cast<int>(c)]; msgs.last = m; }, 1000);
    TheoryTermDef def(loc, "t");
    // tokens: optional unary operators in front of every operand
    int n = (int)symx_param("operands", 3);
    std::vector<int> toks;
    Output::RawTheoryTerm::ElemVec elems;
    for (int k = 0; k < n; ++k) {
        StringVec os;
        if (k) { int b = (int)symx_choose(("b" + std::to_string(k)).c_str(), 0, 3); if (b == 3) b = 5; toks.push_back(b); os.push_back(names[b]); }
        int u = (int)symx_choose(("u" + std::to_string(k)).c_str(), 0, (int)symx_param("unary", 1) + (k == 0));
        for (int j = 0; j < u; ++j) { int o = j ? 4 : 3; toks.push_back(o); os.push_back(names[o]); }
        toks.push_back(-1);
        elems.emplace_back(std::move(os), gringo_make_unique<Output::TermTheoryTerm>(make_locatable<ValTerm>(loc, Symbol::createId(("x" + std::to_string(k)).c_str()))));
    }
    for (int i = 0; i < 6; ++i) {
        bool un = i == 3 || i == 4;
        unsigned p = !std::count(toks.begin(), toks.end(), i) ? 0 : symx_uint(("p" + std::to_string(i)).c_str());
        bool used = std::find(toks.begin(), toks.end(), i) != toks.end(), left = un || !used ? false : symx_choose(("left" + std::to_string(i)).c_str(), 0, 1);
        ops.push_back(Op{names[i], un, left, p});
        def.addOpDef(TheoryOpDef(loc, names[i], p, un ? TheoryOperatorType::Unary : left ? TheoryOperatorType::BinaryLeft : TheoryOperatorType::BinaryRight), log);
    }
    Output::TheoryParser p(loc, def);
    Output::UTheoryTerm raw = gringo_make_unique<Output::RawTheoryTerm>(std::move(elems));
    auto res = raw->initTheory(p, log);
    std::ostringstream o;
    res->print(o);
    Climb c{toks, ops};
    auto e = c.expr(-1);
    symx_observe("term", o.str());
    symx_assert(o.str() == e, "operator-tree");
    symx_assert(!log.hasError(), "operators-defined");
}
// }}}
// {{{ mode 1: definitions and uses
static void definitions() {
    // definition: type, guard, defined terms and operators; use: place, guard, arity, operators
    static const char *types[] = {"any", "head", "body", "directive"};
    int part = (int)symx_param("part", 0);
    int type = (int)symx_choose("type", 0, 3), place = (int)symx_choose("place", 0, 3);
    bool gdef = symx_choose("guard-defined", 0, 1), guse = symx_choose("guard-used", 0, 1);
    int op = guse ? (int)symx_choose("op", 0, 1) : 0;
    int terms = part == 0 ? (int)symx_choose("terms", 0, 3) : 3;       // defined term definitions: bit 0 elements, bit 1 guards
    int arity = part == 0 ? (int)symx_choose("arity", 0, 1) : 0;
    int use = part == 1 ? (int)symx_choose("operators", 0, 4) : 0;     // which operators occur where
    int dup = part == 1 ? (int)symx_choose("duplicate", 0, 5) : 0;
    int same = part == 2 ? (int)symx_choose("second-theory", 0, 2) : 0;
    bool none = part == 2 && symx_choose("no-elements", 0, 1);
    std::string th = "#theory t { ";
    if (terms & 1) th += "e { + : 1, binary, left; - : 1, unary" + std::string(dup == 1 ? "; + : 2, binary, right" : dup == 2 ? "; - : 1, binary, left" : "") + " }; ";
    if (terms & 2) th += "g { * : 1, binary, left };";
    if (dup == 3) th += "g { };";
    th += std::string("&a/0 : e, ") + (gdef ? "{<=,<}, g, " : "") + types[type];
    if (dup == 4) th += "; &a/0 : e, any";
    if (dup == 5) th += "; &a/1 : e, any";
    th += " }. ";
    // terms are local to their theory but atoms are not
    if (same) th += std::string("#theory u { e { }; g { + : 1, unary }; ") + (same == 2 ? "&a/0 : e, any; " : "") + "&b/0 : g, any }. ";
    std::string atom = std::string("&a") + (arity ? "(1)" : "") + " { ";
    static const char *elem[] = {"1+(-2)", "1*2", "-1", "1 + - 2", "- - 1"};
    if (!none) atom += elem[use];
    atom += " }";
    if (guse) atom += op ? " = 1*2" : " <= 1*2";
    std::string prg;
    switch (place) {
        case 0: prg = atom + "."; break;
        case 1: prg = atom + " :- x."; break;
        case 2: prg = "y :- " + atom + "."; break;
        case 3: prg = "y :- not " + atom + ", x."; break;
    }
    bool head = place < 2, fact = place == 0;
    bool ok = !arity || dup == 5;
    ok = ok && (type == 0 || (type == 1 && head) || (type == 2 && !head) || (type == 3 && fact));
    // elements
    ok = ok && (terms & 1);
    if (!none && (use == 1 || (use == 4 && false))) ok = false;
    // guards
    if (guse) ok = ok && gdef && !op && (terms & 2);
    // definitions given twice
    if (dup == 1 || dup == 3 || dup == 4 || same == 2) ok = false;
    Session x;
    bool res = x.run(th + "{x}. " + prg);
    symx_observe("program", th + prg);
    symx_observe("messages", x.msgs.all);
    symx_assert(res == ok, ok ? "accepted" : "rejected");
    if (res) {
        symx_assert(x.rec.tatoms.size() == 1, "one theory atom");
        auto &t = x.rec.tatoms[0];
        symx_assert((t.atom == 0) == (type == 3), "directive");
        std::string e;
        static const char *exp[] = {"+(1,-(2,),)", "", "-(1,)", "+(1,-(2,),)", "-(-(1,),)"};
        for (auto y : t.elems) for (auto z : x.rec.telems.at(y).terms) e += termStr(x.rec, z);
        symx_assert(e == (none ? "" : exp[use]), "element");
        symx_assert(t.guard == guse && (!guse || (termStr(x.rec, t.op) == "<=" && termStr(x.rec, t.rhs) == "*(1,2,)")), "guard");
    }
}
// }}}
// {{{ mode 2: instantiation
struct Elem { std::string tuple; std::function<bool(unsigned)> cond; };
struct Atom { int kind; std::string term, guard; std::vector<Elem> elems; std::function<bool(unsigned)> body; std::string head; bool sign; }; // kind 0: head, 1: directive, 2: body
static const char *theory = "#theory t { term { + : 1, binary, left; ** : 3, binary, right; - : 2, unary; - : 1, binary, left }; "
    "&s/0 : term, {<=,=}, term, any; &s/1 : term, {<=}, term, any; &b/1 : term, body; &h/1 : term, head; &d/1 : term, {=}, term, directive }. ";
static void instances() {
    static const char *rules[] = {
        /* 0*/ "&s(X) { Y : r(X,Y), h(Y); X+Y**Y : r(_,Y); -1; f(\"a\",X,#inf) : not h(X) } <= -X+2 :- e(X).",
        /* 1*/ "p(X) :- e(X), &s { X,Y : r(X,Y), h(Y); (Y,) : r(Y,X), not h(Y); : h(0) } = X-[1].",
        /* 2*/ "&d(a) { [X,2] : e(X); {X} : h(1), h(X); (1,X) : h(X), r(X,_); () : r(X,Y), Y > X; h(X) : not h(Y), r(X,Y) } = a.",
        /* 3*/ "&h(1..2) { X : X = 0..1, h(X); Y : h((0;2)), e(Y); (3;4,5) }. &h(5;7) { }.",
        /* 4*/ "&s(X) { Y : e(Y), 1 = 2; 2 : a+1 = 2; 3 : e(Y), Z = Y/0; 4; Y : 0 < Y < 2, e(Y); 5 : not r(X,0); 6 : X = 0; 7 : 1 <= X; Y : 1 != Y != 0, r(X,Y) } <= X :- e(X).",
        /* 5*/ "p(X) :- not &b(X) { Y : r(X,Y) }, e(X).",
        /* 6*/ "&h(0) { X,1 : v(X); X+1 : v(X), h(0) }. &h(X) { } :- v(X).",
        /* 7*/ "p(0) :- h(0). p(1) :- &s { X : p(X); X : h(X), not p(0) } = 1. p(2) :- p(1), h(1).",
        /* 8*/ "p(X) :- &s { X,Y : r(X,Y); Y : r(Y,_), h(X) } <= 1, e(X), h(X).",
        /* 9*/ "&h(X) { X,Y : h(Y) } :- e(X), h(X), not h(1). &h(X) { Z : r(X,Z) } :- e(X), r(X,X).",
        /*10*/ "p(X) :- e(X), not not &s { Y : r(X,Y) : ; Y : h(Y), r(X,Y) } <= X.",
        /*11*/ "&s { X-Y-X,a : r(X,Y), not not h(X); X : h(X), not r(X,_), X = (0;1); } = 1 ** 2 ** 3.",
    };
    constexpr int N = sizeof(rules) / sizeof(*rules);
    int D = (int)symx_param("D", 3), c = parts("case", N), n = (int)symx_param("n", 2);
    if (c == 6) n = D = 1;
    std::string facts;
    std::vector<std::pair<int, int>> r;
    std::set<int> e;
    std::set<std::pair<int, int>> rs;
    for (int i = 0; i < n; ++i) {
        int x = pick(("x" + std::to_string(i)).c_str(), D), y = pick(("y" + std::to_string(i)).c_str(), D);
        r.emplace_back(x, y);
        rs.emplace(x, y);
        facts += "r(" + std::to_string(x) + "," + std::to_string(y) + "). ";
        if (!i) { e.insert(x); facts += "e(" + std::to_string(x) + "). "; }
    }
    static const char *vals[][2] = {{"-3", "-(3,)"}, {"0", "0"}, {"\"a \\\"\\n\\\\\"", "\"a \\\"\\n\\\\\""}, {"-f(1,-2)", "-(f(1,-(2,),),)"}, {"(1,)", "-1(1,)"}, {"()", "-1()"}, {"#sup", "#sup"}, {"#inf", "#inf"}, {"c", "c"}, {"-c", "-(c,)"}, {"(-1,g((x,\"\")))", "-1(-(1,),g(-1(x,\"\",),),)"}, {"-2147483647-1", "-2147483648"}};
    std::vector<int> vs;
    if (c == 6) for (int i = 0; i < 2; ++i) { int v = (int)symx_choose(("v" + std::to_string(i)).c_str(), 0, (int)symx_param("vals", 11)); vs.push_back(v); facts += "v(" + std::string(vals[v][0]) + "). "; }
    auto N_ = [](int x) { return std::to_string(x); };
    auto H_ = [](int x) { return [x](unsigned m) { return x < 3 && ((m >> x) & 1); }; };
    auto T = [](unsigned) { return true; };
    std::vector<Atom> as;
    auto ee = [&](Atom &a, std::string const &t, std::function<bool(unsigned)> f) { a.elems.push_back({t + (t.empty() ? "" : ","), f}); };
    switch (c) {
        case 0: for (int x : e) {
            Atom a{0, "s(" + N_(x) + ",)", "<=+(" + (x < 0 ? "" : "-(" + N_(x) + ",)") + ",2,)", {}, T, "", false};
            for (auto &p : rs) { if (p.first == x) ee(a, N_(p.second), H_(p.second)); ee(a, "+(" + N_(x) + ",**(" + N_(p.second) + "," + N_(p.second) + ",),)", T); }
            ee(a, "-(1,)", T);
            ee(a, "f(\"a\"," + N_(x) + ",#inf,)", [=](unsigned m) { return !H_(x)(m); });
            as.push_back(a);
        } break;
        case 1: for (int x : e) {
            Atom a{2, "s", "=-(" + N_(x) + ",-3(1,),)", {}, T, "p(" + N_(x) + ")", false};
            for (auto &p : rs) { if (p.first == x) ee(a, N_(x) + "," + N_(p.second), H_(p.second)); if (p.second == x) ee(a, "-1(" + N_(p.first) + ",)", [=](unsigned m) { return !H_(p.first)(m); }); }
            ee(a, "", H_(0));
            as.push_back(a);
        } break;
        case 2: {
            Atom a{1, "d(a,)", "=a", {}, T, "", false};
            for (int x : e) ee(a, "-3(" + N_(x) + ",2,)", T);
            for (int x = 0; x < 3; ++x) ee(a, "-2(" + N_(x) + ",)", [=](unsigned m) { return H_(1)(m) && H_(x)(m); });
            for (auto &p : rs) {
                ee(a, "-1(1," + N_(p.first) + ",)", H_(p.first));
                if (p.second > p.first) ee(a, "-1()", T);
                ee(a, "h(" + N_(p.first) + ",)", [=](unsigned m) { return !H_(p.second)(m); });
            }
            as.push_back(a);
        } break;
        case 3: {
            for (int k = 1; k < 3; ++k) {
                Atom a{0, "h(" + N_(k) + ",)", "", {}, T, "", false};
                for (int x = 0; x < 2; ++x) ee(a, N_(x), H_(x));
                for (int y : e) for (int z : {0, 2}) ee(a, N_(y), H_(z));
                as.push_back(a);
            }
            for (int k : {5, 7}) as.push_back({0, "h(" + N_(k) + ",)", "", {}, T, "", false});
        } break;
        case 4: for (int x : e) {
            Atom a{0, "s(" + N_(x) + ",)", "<=" + N_(x), {}, T, "", false};
            ee(a, "4", T);
            for (int y : e) if (y == 1) ee(a, "1", T);
            if (!rs.count({x, 0})) ee(a, "5", T);
            if (x == 0) ee(a, "6", T);
            if (x >= 1) ee(a, "7", T);
            for (auto &p : rs) if (p.first == x && p.second != 1 && p.second != 0) ee(a, N_(p.second), T);
            as.push_back(a);
        } break;
        case 5: for (int x : e) {
            Atom a{2, "b(" + N_(x) + ",)", "", {}, T, "p(" + N_(x) + ")", true};
            for (auto &p : rs) if (p.first == x) ee(a, N_(p.second), T);
            as.push_back(a);
        } break;
        case 6: {
            std::map<std::string, Atom> m;
            for (int v : vs) { std::string t = std::string("h(") + vals[v][1] + ",)"; m.emplace(t, Atom{0, t, "", {}, T, "", false}); }
            Atom a{0, "h(0,)", "", {}, T, "", false};
            for (int v : vs) { ee(a, std::string(vals[v][1]) + ",1", T); ee(a, std::string("+(") + vals[v][1] + ",1,)", H_(0)); }
            as.push_back(a);
            for (auto &x : m) as.push_back(x.second);
        } break;
        case 7: break;
        case 8: for (int x : e) {
            Atom a{2, "s", "<=1", {}, H_(x), "p(" + N_(x) + ")", false};
            for (auto &p : rs) { if (p.first == x) ee(a, N_(x) + "," + N_(p.second), T); ee(a, N_(p.first), H_(x)); }
            as.push_back(a);
        } break;
        case 9: for (int x : e) {
            Atom a{0, "h(" + N_(x) + ",)", "", {}, [=](unsigned m) { return H_(x)(m) && !H_(1)(m); }, "", false};
            for (int y = 0; y < 3; ++y) ee(a, N_(x) + "," + N_(y), H_(y));
            as.push_back(a);
            if (rs.count({x, x})) {
                Atom b{0, "h(" + N_(x) + ",)", "", {}, T, "", false};
                for (auto &p : rs) if (p.first == x) ee(b, N_(p.second), T);
                as.push_back(b);
            }
        } break;
        case 10: for (int x : e) {
            Atom a{2, "s", "<=" + N_(x), {}, T, "p(" + N_(x) + ")", false};
            for (auto &p : rs) if (p.first == x) { ee(a, N_(p.second), H_(p.second)); }
            as.push_back(a);
        } break;
        case 11: {
            Atom a{0, "s", "=**(1,**(2,3,),)", {}, T, "", false};
            for (auto &p : rs) ee(a, "-(-(" + N_(p.first) + "," + N_(p.second) + ",)," + N_(p.first) + ",),a", H_(p.first));
            for (int x = 0; x < 2; ++x) { bool f = false; for (auto &p : rs) f = f || p.first == x; if (!f) ee(a, N_(x), H_(x)); }
            as.push_back(a);
        } break;
    }
    std::string rule = rules[c];
    if (c == 10) rule = "p(X) :- e(X), not not &s { Y : h(Y), r(X,Y) } <= X.";
    if (c == 11) rule = "&s { X-Y-X,a : r(X,Y), not not h(X); X : h(X), not r(X,_), X = (0;1) } = 1 ** 2 ** 3.";
    if (c == 3) rule = "&h(1..2) { X : X = 0..1, h(X); Y : h((0;2)), e(Y) }. &h(5;7) { }.";
    symx_observe("rules", rule);
    Session s;
    bool ok = s.run(theory + std::string("{h(0..2)}. ") + rule + " " + facts);
    symx_observe("messages", s.msgs.all);
    symx_assert(ok, "accepted");
    SymVec syms;
    for (int x = 0; x < 3; ++x) syms.push_back(fun("h", {num(x)}));
    for (int x = 0; x < 3; ++x) syms.push_back(fun("p", {num(x)}));
    auto got = models(s.rec, syms);
    std::map<std::string, int> exp;
    if (c == 7) {
        // p(1) depends on the truth of the theory atom
        for (unsigned m = 0; m < 8; ++m) for (int t = 0; t < 2; ++t) {
            bool h0 = m & 1, h1 = m & 2;
            bool p0 = h0, p1 = t, p2 = p1 && h1;
            std::string x;
            for (int i = 0; i < 3; ++i) x += (m >> i) & 1 ? "1" : "0";
            x += p0 ? "1" : "0"; x += p1 ? "1" : "0"; x += p2 ? "1" : "0";
            std::set<std::string> es;
            if (p0) es.insert("0,");
            if (p1) es.insert("1,");
            if (p2) es.insert("2,");
            for (int i = 0; i < 3; ++i) if (((m >> i) & 1) && !p0) es.insert(std::to_string(i) + ",");
            if (t) { x += " &s{"; for (auto &y : es) x += y + ";"; x += "}=1"; }
            ++exp[x];
        }
    }
    else for (unsigned m = 0; m < 8; ++m) {
        std::vector<Atom const *> free;
        for (auto &a : as) if (a.kind == 2) free.push_back(&a);
        for (unsigned g = 0; g < (1u << free.size()); ++g) {
            std::string x;
            for (int i = 0; i < 3; ++i) x += (m >> i) & 1 ? "1" : "0";
            std::set<std::string> ps;
            std::multiset<std::string> st;
            size_t k = 0;
            for (auto &a : as) {
                bool truth = a.kind == 2 ? (g >> k++) & 1 : a.body(m);
                if (a.kind == 2 && truth != a.sign && a.body(m)) ps.insert(a.head);
                if (!truth) continue;
                std::set<std::string> es;
                for (auto &y : a.elems) if (y.cond(m)) es.insert(y.tuple);
                std::string d = (a.kind == 1 ? "&!" : "&") + a.term + "{";
                for (auto &y : es) d += y + ";";
                st.insert(d + "}" + a.guard);
            }
            for (int i = 0; i < 3; ++i) x += ps.count("p(" + std::to_string(i) + ")") ? "1" : "0";
            for (auto &y : st) x += " " + y;
            ++exp[x];
        }
    }
    std::string g, ex;
    for (auto &x : got) g += x.first + "#" + std::to_string(x.second) + "\n";
    for (auto &x : exp) ex += x.first + "#" + std::to_string(x.second) + "\n";
    symx_observe("got", g);
    symx_observe("expected", ex);
    symx_assert(got == exp, "theory-atoms");
}
// }}}
int main() {
    switch (symx_param("mode", 2)) {
        case 0: operators(); break;
        case 1: definitions(); break;
        default: instances(); break;
    }
    symx_reach("end");
}
