// the reified output, read back as facts, describes exactly the ground program given to the output
#include "asp.hh"
#include <reify/program.hh>
using namespace H;
typedef std::vector<std::string> Args;
typedef std::map<std::string, std::vector<Args>> Facts;
// splits at commas outside of parentheses and strings
static Args split(std::string const &s) {
    Args r;
    if (s.empty()) return r;
    std::string cur;
    int par = 0;
    bool str = false, esc = false;
    for (auto c : s) {
        if (str) { cur += c; if (esc) esc = false; else if (c == '\\') esc = true; else if (c == '"') str = false; continue; }
        if (c == ',' && !par) { r.push_back(cur); cur.clear(); continue; }
        if (c == '(') ++par;
        if (c == ')') --par;
        if (c == '"') str = true;
        cur += c;
    }
    r.push_back(cur);
    return r;
}
static bool term(std::string const &s, std::string &name, Args &args) {
    auto i = s.find('(');
    if (i == std::string::npos) { name = s; args.clear(); return true; }
    if (s.empty() || s.back() != ')') return false;
    name = s.substr(0, i);
    args = split(s.substr(i + 1, s.size() - i - 2));
    return true;
}
static int toInt(std::string const &s) {
    unsigned v = 0;
    bool neg = !s.empty() && s[0] == '-';
    for (size_t i = neg; i < s.size(); ++i) v = v * 10 + (unsigned)(s[i] - '0');
    return (int)(neg ? 0 - v : v);
}
static int64_t toInt64(std::string const &s) {
    int64_t v = 0;
    bool neg = !s.empty() && s[0] == '-';
    for (size_t i = neg; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
static int iseq(int a, int b) { return (a ^ b) == 0; }
// a statement: kind, numbers in order, numbers without order, text
struct St { std::string kind; std::vector<int> seq; std::vector<int> set; std::vector<std::pair<int, int64_t>> wl; std::vector<int> set2; std::string text; };
static bool inAll(std::vector<int> const &a, std::vector<int> const &b) {
    int all = 1;
    for (auto x : a) { int any = 0; for (auto y : b) any |= iseq(x, y); all &= any; }
    return all;
}
static bool wlSame(std::vector<std::pair<int, int64_t>> const &a, std::vector<std::pair<int, int64_t>> const &b) {
    for (auto *p : {&a, &b}) for (auto &x : *p) {
        int64_t sa = 0, sb = 0;
        for (auto &y : a) sa += y.second * iseq(y.first, x.first);
        for (auto &y : b) sb += y.second * iseq(y.first, x.first);
        if (sa != sb) return false;
    }
    return true;
}
static bool same(St const &a, St const &b) {
    if (a.kind != b.kind || a.seq.size() != b.seq.size() || a.text != b.text) return false;
    int all = 1;
    for (size_t i = 0; i < a.seq.size(); ++i) all &= iseq(a.seq[i], b.seq[i]);
    return all && inAll(a.set, b.set) && inAll(b.set, a.set) && inAll(a.set2, b.set2) && inAll(b.set2, a.set2) && wlSame(a.wl, b.wl);
}
static bool among(std::vector<St> const &a, std::vector<St> const &b) {
    for (auto &x : a) { bool f = false; for (auto &y : b) if (same(x, y)) { f = true; break; } if (!f) { symx_observe("missing", x.kind); return false; } }
    return true;
}
static std::vector<int> ints(Lits const &l) { return std::vector<int>(l.begin(), l.end()); }
template <class T> static std::vector<int> uints(T const &l) { std::vector<int> r; for (auto x : l) r.push_back((int)x); return r; }
static std::string quoted(std::string const &s) { std::string r = "\""; for (auto c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else r += c; } return r + "\""; }
static std::vector<St> expected(Recorded const &r) {
    std::vector<St> v;
    for (auto &x : r.rules) {
        St s{x.choice ? "choice" : "disjunction", {}, uints(x.head), {}, {}, x.weighted ? "sum" : "normal"};
        if (x.weighted) { s.seq.push_back(x.bound); for (auto &l : x.body) s.wl.emplace_back(l.first, l.second); }
        else for (auto &l : x.body) s.set2.push_back(l.first);
        v.push_back(s);
    }
    for (auto &x : r.mins) { St s{"minimize", {x.prio}, {}, {}, {}, ""}; for (auto &l : x.body) s.wl.emplace_back(l.first, l.second); v.push_back(s); }
    for (auto x : r.project) v.push_back({"project", {(int)x}, {}, {}, {}, ""});
    for (auto &x : r.outs) { Lits b = x.body; if (!x.cond && x.atom) b.push_back((Lit_t)x.atom); v.push_back({"output", {}, ints(b), {}, {}, str(x.sym)}); }
    static char const *vals[] = {"free", "true", "false", "release"};
    for (auto &x : r.exts) v.push_back({"external", {(int)x.atom}, {}, {}, {}, vals[x.val]});
    for (auto x : r.assume) v.push_back({"assume", {x}, {}, {}, {}, ""});
    static char const *mods[] = {"level", "sign", "factor", "init", "true", "false"};
    for (auto &x : r.heus) v.push_back({"heuristic", {(int)x.atom, x.bias, (int)x.prio}, ints(x.body), {}, {}, mods[x.type]});
    for (auto &x : r.edges) v.push_back({"edge", {x.u, x.v}, ints(x.body), {}, {}, ""});
    for (auto &t : r.tterms) {
        auto &x = t.second;
        int id = (int)t.first;
        if (x.kind == 0) v.push_back({"theory_number", {id, x.num}, {}, {}, {}, ""});
        else if (x.kind == 1) v.push_back({"theory_string", {id}, {}, {}, {}, quoted(x.name)});
        else {
            St s{x.cid >= 0 ? "theory_function" : "theory_sequence", {id}, {}, {}, {}, x.cid >= 0 ? "" : x.cid == -1 ? "tuple" : x.cid == -2 ? "set" : "list"};
            if (x.cid >= 0) s.seq.push_back(x.cid);
            for (auto a : x.args) s.seq.push_back((int)a);
            v.push_back(s);
        }
    }
    for (auto &t : r.telems) { St s{"theory_element", {(int)t.first}, ints(t.second.cond), {}, {}, ""}; for (auto a : t.second.terms) s.seq.push_back((int)a); v.push_back(s); }
    for (auto &x : r.tatoms) { St s{"theory_atom", {(int)x.atom, (int)x.term}, uints(x.elems), {}, {}, x.guard ? "guard" : ""}; if (x.guard) { s.seq.push_back((int)x.op); s.seq.push_back((int)x.rhs); } v.push_back(s); }
    return v;
}
// the statements of a step, -1: facts without steps
static bool readBack(std::string const &text, int step, std::vector<St> &v, std::vector<std::vector<int>> &sccs) {
    Facts fs;
    for (size_t a = 0; a < text.size();) {
        auto e = text.find('\n', a);
        if (e == std::string::npos) return false;
        std::string line = text.substr(a, e - a), n;
        a = e + 1;
        Args as;
        if (line.size() < 2 || line.back() != '.') return false;
        line.pop_back();
        if (!term(line, n, as)) return false;
        if (n == "tag") continue;
        if (step >= 0) {
            if (as.empty()) return false;
            if (toInt(as.back()) != step) continue;
            as.pop_back();
        }
        fs[n].push_back(as);
    }
    auto tup = [&](char const *n, std::string const &id, size_t cols, std::vector<Args> &res) {
        bool found = false;
        auto it = fs.find(n);
        if (it == fs.end()) return false;
        for (auto &f : it->second) {
            if (f.empty() || f[0] != id) continue;
            if (f.size() == 1) { found = true; continue; }
            if (f.size() != cols + 1) return false;
            Args r(f.begin() + 1, f.end());
            bool dup = false; // facts are a set
            for (auto &x : res) dup = dup || x == r;
            if (!dup) res.push_back(r);
        }
        return found;
    };
    auto set = [&](char const *n, std::string const &id, std::vector<int> &res) {
        std::vector<Args> t;
        if (!tup(n, id, 1, t)) return false;
        for (auto &x : t) res.push_back(toInt(x[0]));
        return true;
    };
    auto wset = [&](std::string const &id, std::vector<std::pair<int, int64_t>> &res) {
        std::vector<Args> t;
        if (!tup("weighted_literal_tuple", id, 2, t)) return false;
        for (auto &x : t) res.emplace_back(toInt(x[0]), toInt64(x[1]));
        return true;
    };
    auto seq = [&](std::string const &id, std::vector<int> &res) {
        std::vector<Args> t;
        if (!tup("theory_tuple", id, 2, t)) return false;
        size_t b = res.size();
        res.resize(b + t.size(), -1);
        for (auto &x : t) { int p = toInt(x[0]); if (p < 0 || p >= (int)t.size()) return false; res[b + p] = toInt(x[1]); }
        return true;
    };
    std::map<int, std::vector<int>> comp;
    for (auto &k : fs) {
        auto &n = k.first;
        if (n.size() > 6 && n.compare(n.size() - 6, 6, "_tuple") == 0) continue;
        for (auto &f : k.second) {
            St s;
            s.kind = n;
            auto I = [&](size_t i) { s.seq.push_back(toInt(f[i])); };
            bool ok = true;
            if (n == "rule") {
                Args h, b;
                std::string hn, bn;
                ok = f.size() == 2 && term(f[0], hn, h) && term(f[1], bn, b) && h.size() == 1 && set("atom_tuple", h[0], s.set);
                s.kind = hn; s.text = bn;
                if (ok && bn == "normal") ok = b.size() == 1 && set("literal_tuple", b[0], s.set2);
                else if (ok && bn == "sum") { ok = b.size() == 2 && wset(b[0], s.wl); if (ok) s.seq.push_back(toInt(b[1])); }
                else ok = false;
            }
            else if (n == "minimize") { ok = f.size() == 2 && wset(f[1], s.wl); if (ok) I(0); }
            else if (n == "project" || n == "assume") { ok = f.size() == 1; if (ok) I(0); }
            else if (n == "output") { ok = f.size() == 2 && set("literal_tuple", f[1], s.set); if (ok) s.text = f[0]; }
            else if (n == "external") { ok = f.size() == 2; if (ok) { I(0); s.text = f[1]; } }
            else if (n == "heuristic") { ok = f.size() == 5 && set("literal_tuple", f[4], s.set); if (ok) { I(0); I(2); I(3); s.text = f[1]; } }
            else if (n == "edge") { ok = f.size() == 3 && set("literal_tuple", f[2], s.set); if (ok) { I(0); I(1); } }
            else if (n == "theory_number") { ok = f.size() == 2; if (ok) { I(0); I(1); } }
            else if (n == "theory_string") { ok = f.size() == 2; if (ok) { I(0); s.text = f[1]; } }
            else if (n == "theory_function") { ok = f.size() == 3; if (ok) { I(0); I(1); ok = seq(f[2], s.seq); } }
            else if (n == "theory_sequence") { ok = f.size() == 3; if (ok) { I(0); s.text = f[1]; ok = seq(f[2], s.seq); } }
            else if (n == "theory_element") { ok = f.size() == 3 && set("literal_tuple", f[2], s.set); if (ok) { I(0); ok = seq(f[1], s.seq); } }
            else if (n == "theory_atom") { ok = (f.size() == 3 || f.size() == 5) && set("theory_element_tuple", f[2], s.set); if (ok) { I(0); I(1); if (f.size() == 5) { I(3); I(4); s.text = "guard"; } } }
            else if (n == "scc") { ok = f.size() == 2; if (ok) comp[toInt(f[0])].push_back(toInt(f[1])); continue; }
            else ok = false;
            if (!ok) { symx_observe("bad", n); return false; }
            v.push_back(s);
        }
    }
    for (auto &c : comp) sccs.push_back(c.second);
    return true;
}
// the non-trivial components of the positive dependency graph, given the positive dependencies
static void checkSCCs(std::vector<std::vector<int>> const &sccs, std::vector<std::pair<int, int>> const &edges, int n) {
    std::vector<std::vector<int>> reach(n + 1, std::vector<int>(n + 1, 0));
    for (auto &e : edges) reach[e.first][e.second] = 1;
    for (int k = 1; k <= n; ++k) for (int i = 1; i <= n; ++i) for (int j = 1; j <= n; ++j) reach[i][j] |= reach[i][k] & reach[k][j];
    std::vector<int> in(n + 1, -1);
    bool once = true;
    for (size_t i = 0; i < sccs.size(); ++i) for (auto a : sccs[i]) { if (a < 1 || a > n) { once = false; continue; } once = once && in[a] < 0; in[a] = (int)i; }
    symx_assert(once, "an atom belongs to at most one component");
    bool ok = true;
    for (int i = 1; i <= n; ++i) {
        bool nontriv = false;
        for (int j = 1; j <= n; ++j) {
            if (i == j) continue;
            bool s = reach[i][j] && reach[j][i];
            nontriv = nontriv || s;
            if (s != (in[i] >= 0 && in[i] == in[j])) ok = false;
        }
        if (nontriv != (in[i] >= 0)) ok = false;
    }
    symx_assert(ok, "components");
}
static void compare(std::string const &text, int step, Recorded const &r, std::vector<std::vector<int>> &sccs) {
    std::vector<St> got, exp = expected(r);
    symx_assert(readBack(text, step, got, sccs), "facts are well-formed");
    symx_assert(among(exp, got), "every statement is reified");
    symx_assert(among(got, exp), "nothing else is reified");
}
static void direct() {
    int kind = pick("kind", 10), steps = pick("steps", 2), n = 2, wide = (int)symx_param("wide", 0);
    int A = 3;
    std::ostringstream out;
    Reify::Reifier rf(out, false, steps);
    std::string both;
    Recorded rec[2];
    int cnt = 0;
    auto atom = [&] { return (Atom_t)symx_int(("a" + std::to_string(cnt++)).c_str(), 1, A); };
    auto lit = [&] { auto a = (int)atom(); return symx_choose(("s" + std::to_string(cnt++)).c_str(), 0, 1) ? -a : a; };
    auto val = [&] {
        auto nm = "w" + std::to_string(cnt++);
        static int const big[] = {INT32_MIN, INT32_MAX, -10, 100};
        return wide ? big[symx_choose(nm.c_str(), 0, 3)] : symx_int(nm.c_str(), -2, 2); };
    auto lits = [&](int k) { Lits l; for (int i = 0; i < k; ++i) l.push_back(lit()); return l; };
    auto atoms = [&](int k) { std::vector<Atom_t> l; for (int i = 0; i < k; ++i) l.push_back(atom()); return l; };
    auto wlits = [&](int k) { std::vector<Potassco::WeightLit_t> l; for (int i = 0; i < k; ++i) { auto x = lit(); l.push_back({x, val()}); } return l; };
    auto ids = [&](int k) { std::vector<Id_t> l; for (int i = 0; i < k; ++i) l.push_back((Id_t)symx_int(("i" + std::to_string(cnt++)).c_str(), 0, 2)); return l; };
    auto sz = [&](char const *s, int m) { return symx_choose((s + std::to_string(cnt++)).c_str(), 0, m); };
    auto ht = [&] { return sz("ht", 1) ? Potassco::Head_t::Choice : Potassco::Head_t::Disjunctive; };
    auto one = [&](Recorded &r, int i) {
        Recorder rc(r);
        auto both = [&](auto f) { f(static_cast<Potassco::AbstractProgram &>(rf)); f(static_cast<Backend &>(rc)); };
        switch (kind) {
            case 0: { auto t = ht(); auto h = atoms(sz("nh", 2)); auto b = lits(sz("nb", 2)); both([&](auto &p) { p.rule(t, Potassco::toSpan(h), Potassco::toSpan(b)); }); break; }
            case 1: { auto t = ht(); auto h = atoms(sz("nh", 1)); auto b = wlits(i && !wide ? 1 : 2); int bd = val(); both([&](auto &p) { p.rule(t, Potassco::toSpan(h), bd, Potassco::toSpan(b)); }); break; }
            case 2: { auto b = wlits(i && !wide ? 1 : 2); int pr = i * 3 - 1; both([&](auto &p) { p.minimize(pr, Potassco::toSpan(b)); }); break; }
            case 3: { auto a = atoms(2); auto l = lits(2); both([&](auto &p) { p.project(Potassco::toSpan(a)); }); if (!i) both([&](auto &p) { p.assume(Potassco::toSpan(l)); }); break; }
            case 4: {
                Atom_t a = i ? 3 : (Atom_t)symx_int("ext", 1, 2); auto v = Potassco::Value_t((unsigned)sz("v", 3)); both([&](auto &p) { p.external(a, v); }); break; }
            case 5: { auto a = atom(); auto m = Potassco::Heuristic_t((unsigned)sz("m", 5)); int bias = val(); unsigned prio = wide ? (unsigned)INT32_MAX : (unsigned)symx_int(("p" + std::to_string(cnt++)).c_str(), 0, 2); auto c = lits(sz("nc", 2)); both([&](auto &p) { p.heuristic(a, m, bias, prio, Potassco::toSpan(c)); }); break; }
            case 6: { int u = val(), v = val(); auto c = lits(sz("nc", 2)); both([&](auto &p) { p.acycEdge(u, v, Potassco::toSpan(c)); }); break; }
            case 7: {
                int x = val(), k = symx_choose("seq", -3, 0), cid = k == 0 ? symx_int("cid", 0, 2) : k;
                auto args = ids(sz("na", 3));
                if (i) { both([&](auto &p) { p.theoryTerm(7, cid, Potassco::toSpan(args)); }); break; }
                char name[3] = {(char)symx_byte("c0", 32, 126), (char)symx_byte("c1", 32, 126), 0};
                both([&](auto &p) { p.theoryTerm(5, x); p.theoryTerm(6, Potassco::toSpan(name)); p.theoryTerm(8, cid, Potassco::toSpan(args)); });
                break; }
            case 8: { auto t = ids(sz("nt", 2)); auto c = lits(sz("nc", 2)); Id_t e = (Id_t)i; both([&](auto &p) { p.theoryElement(e, Potassco::toSpan(t), Potassco::toSpan(c)); }); break; }
            case 9: { auto a = i ? atom() : 0; auto e = ids(sz("ne", 2)); Id_t t = (Id_t)i, op = (Id_t)symx_int(("op" + std::to_string(i)).c_str(), 0, 2), rhs = (Id_t)symx_int(("rhs" + std::to_string(i)).c_str(), 0, 2); if (sz("g", 1)) both([&](auto &p) { p.theoryAtom(a, t, Potassco::toSpan(e), op, rhs); }); else both([&](auto &p) { p.theoryAtom(a, t, Potassco::toSpan(e)); }); break; }
        }
    };
    rf.initProgram(steps);
    for (int s = 0; s <= steps; ++s) {
        rf.beginStep();
        for (int i = 0; i < n - (steps && s); ++i) one(rec[s], i);
        rf.endStep();
    }
    symx_observe("text", out.str());
    for (int s = 0; s <= steps; ++s) { std::vector<std::vector<int>> sccs; compare(out.str(), steps ? s : -1, rec[s], sccs); symx_assert(sccs.empty(), "no components"); }
}
static void graph() {
    int N = (int)symx_param("nodes", 3), steps = pick("steps", 2);
    std::ostringstream out;
    Reify::Reifier rf(out, true, steps);
    for (int s = 0; s <= steps; ++s) {
        std::vector<std::pair<int, int>> edges;
        rf.beginStep();
        for (int i = 1; i <= N; ++i) {
            // one rule per atom with any body, as set or as sum; literals with the other sign do not count
            Lits b;
            std::vector<Potassco::WeightLit_t> w;
            int last = s ? 2 : N;
            for (int j = 1; j <= last && i <= last; ++j) {
                if (i == j && N > 3) continue;
                if (!symx_choose(("e" + std::to_string(s) + std::to_string(i) + std::to_string(j)).c_str(), 0, 1)) { if ((i + j) % 2) { b.push_back(-j); w.push_back({-j, 1}); } continue; }
                edges.emplace_back(i, j); b.push_back(j); w.push_back({j, 1 + j});
            }
            Atom_t h[] = {(Atom_t)i};
            if (i % 2) rf.rule(Potassco::Head_t::Disjunctive, Potassco::toSpan(h, 1), Potassco::toSpan(b));
            else rf.rule(Potassco::Head_t::Choice, Potassco::toSpan(h, 1), 1, Potassco::toSpan(w));
        }
        rf.endStep();
        std::vector<St> got;
        std::vector<std::vector<int>> sccs;
        symx_assert(readBack(out.str(), steps ? s : -1, got, sccs), "facts are well-formed");
        checkSCCs(sccs, edges, N);
    }
}
static void endToEnd() {
    static char const *rules[] = {
        /* 0*/ "{h(0..2)}. p(X) :- h(X), not r(X,X), not not h(0). p(X) :- p(Y), r(X,Y).",
        /* 1*/ "h(X) | h(Y) :- r(X,Y). q :- not h(1).",
        /* 2*/ "{h(0..2)}. p :- 2 <= #sum { Y-1,Z : h(Z), r(Z,Y); 1,a : h(0); 1,b : h(0) }.",
        /* 3*/ "{h(0..2)}. p :- 1 != #count { Y : h(Z), r(Z,Y); c : h(1) } != 2.",
        /* 4*/ "{h(0..2)}. #minimize { Y@X,Z : h(Z), r(X,Y), Y != 0; -1 : h(0); 1,a : h(1); 1,b : h(1) }.",
        /* 5*/ "{h(0..2)}. #show h/1. #show g(X,\"s\\n\\\"=1\") : h(X), r(X,_). #show (X,) : r(X,X), not h(X).",
        /* 6*/ "#external h(X) : r(X,_). [free] p(X) :- h(X). #external g(Y) : r(Y,Y). [true]",
        /* 7*/ "{h(0..2)}. #heuristic h(X) : r(X,Y), not h(Y). [X-Y@Y+1,sign] #edge (X,f(Y)) : r(X,Y), h(X). #project h(X) : r(X,_).",
        /* 8*/ "#theory t { term { + : 1, binary, left; - : 2, unary }; &sum/0 : term, {<=,=}, term, any }. {h(0..2)}. &sum { X+a(Y) : h(X), r(X,Y); -1,\"a\\\"b\\n\"; (X,[X]) : h(X), r(_,X) } <= -X :- r(X,_).",
    };
    constexpr int N = sizeof(rules) / sizeof(*rules);
    int c = parts("case", N), D = (int)symx_param("D", 3), sccs = pick("sccs", 2), steps = pick("steps", 2);
    std::string prg = rules[c];
    for (int i = 0; i < 2; ++i) {
        auto v = std::to_string(i);
        prg += " r(" + std::to_string(symx_choose(("x" + v).c_str(), 0, D - 1)) + "," + std::to_string(symx_choose(("y" + v).c_str(), 0, D - 1)) + ").";
    }
    symx_observe("rules", rules[c]);
    Session a;
    Output::OutputOptions opts;
    opts.reifySCCs = sccs;
    opts.reifySteps = steps;
    Session b;
    // the output chosen by the application, and the one programs register
    bool reg = pick("registered", 2);
    auto *os = new std::ostringstream();
    if (reg) b.out.reset(new Output::OutputBase(b.td, {}, Output::make_backend(std::unique_ptr<std::ostream>(os), Output::OutputFormat::REIFY, sccs, steps), opts));
    else b.out.reset(new Output::OutputBase(b.td, {}, *os, Output::OutputFormat::REIFY, opts));
    b.pb.reset(new Input::NongroundProgramBuilder(b.ctx, b.prg, b.out->outPreds, b.defs));
    b.parser.reset(new Input::NonGroundParser(*b.pb, b.nbck, b.incmode));
    bool ok = a.run(prg) && b.run(prg);
    symx_assert(ok, "accepted");
    std::string text = os->str();
    symx_observe("text", text);
    std::vector<std::vector<int>> cs;
    compare(text, steps ? 0 : -1, a.rec, cs);
    std::vector<std::pair<int, int>> edges;
    int n = 1;
    for (auto &r : a.rec.rules) for (auto h : r.head) { n = std::max(n, (int)h); for (auto &l : r.body) { n = std::max(n, std::abs(l.first)); if (l.first > 0) edges.emplace_back((int)h, l.first); } }
    if (sccs) checkSCCs(cs, edges, n);
    else symx_assert(cs.empty(), "components only on request");
}
int main() {
    switch (pick("mode", 3)) {
        case 0: direct(); break;
        case 1: graph(); break;
        case 2: endToEnd(); break;
    }
    symx_reach("end");
}
