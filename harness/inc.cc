// iterative solving: parts are grounded in order, the query holds in the current step only, and the search ends when it is told to
#include "asp.hh"
#include <clingo/incmode.hh>
#include <clingo/clingocontrol.hh>
#include <climits>
using namespace H;
struct Fut : SolveFuture {
    SolveResult r;
    explicit Fut(SolveResult r) : r(r) {}
    SolveResult get() override { return r; }
    Model const *model() override { return nullptr; }
    Potassco::LitSpan unsatCore() override { return {nullptr, 0}; }
    Model const *lastModel() override { return nullptr; }
    bool wait(double) override { return true; }
    void cancel() override {}
    void resume() override {}
};
struct Boom : std::exception {};
static Symbol query(int t) { return fun("query", {num(t)}); }
// a constant: missing, a number, or something else
static int constant(char const *n, Symbol &s, int lo, int hi) {
    int k = pick((std::string(n) + ".kind").c_str(), 3), v = 0;
    if (k == 1) { v = symx_int(n, lo, hi); s = num(v); }
    else if (k == 2) s = id("other");
    return k == 1 ? v : INT_MIN;
}
static int stop(Symbol &s) {
    int k = pick("istop", 5);
    static char const *names[] = {"SAT", "UNSAT", "UNKNOWN", "SAT"};
    if (k < 4) s = pick("quoted", 2) ? Symbol::createStr(names[k]) : id(names[k]);
    return k == 1 ? 2 : k == 2 ? 0 : 1;
}
// {{{ (mode 0) the calls made for given results
struct Seq : StandInControl {
    Symbol imax, imin, istop;
    std::vector<std::string> calls;
    std::vector<unsigned> results;
    size_t solves = 0;
    int failAt = -1;
    void hit(std::string const &s) { calls.push_back(s); if ((int)calls.size() - 1 == failAt) throw Boom(); }
    void add(std::string const &n, Gringo::StringVec const &p, std::string const &s) override { std::string t = "add " + n; for (auto &x : p) t += std::string(" ") + x.c_str(); hit(t + ": " + s); }
    Symbol getConst(std::string const &n) const override { return n == "imax" ? imax : n == "imin" ? imin : n == "istop" ? istop : Symbol(); }
    void ground(GroundVec const &v, Context *c) override { symx_assert(!c, "no context"); std::string t = "ground"; for (auto &x : v) { t += " " + std::string(x.first.c_str()) + "("; for (auto y : x.second) t += str(y) + ","; t += ")"; } hit(t); }
    void assignExternal(Symbol s, Potassco::Value_t v) override { hit("external " + str(s) + " " + std::to_string(static_cast<unsigned>(v))); }
    USolveFuture solve(Assumptions a, clingo_solve_mode_bitset_t m, USolveEventHandler h) override {
        symx_assert(a.size == 0 && m == 0 && !h, "plain solving");
        hit("solve");
        if (solves == results.size()) throw Boom();
        return gringo_make_unique<Fut>(SolveResult(results[solves++]));
    }
};
static void sequence() {
    Seq c;
    int hi = constant("imax", c.imax, INT_MIN + 1, INT_MAX), lo = constant("imin", c.imin, INT_MIN + 1, INT_MAX), st = stop(c.istop);
    int n = (int)symx_param("n", 3);
    for (int i = 0; i < n; ++i) {
        auto v = std::to_string(i);
        c.results.push_back(static_cast<unsigned>(symx_choose(("result" + v).c_str(), 0, 2) + 4 * symx_choose(("flags" + v).c_str(), 0, 1)));
    }
    c.failAt = pick("fail", 6 * n) - 1;
    bool thrown = false;
    try { incmode(c); }
    catch (Boom const &) { thrown = true; }
    catch (...) { symx_assert(false, "other failure"); }
    // the calls expected
    std::vector<std::string> want{"add check t: #external query(t)."};
    bool expectThrown = false;
    for (int t = 0;; ++t) {
        bool go = hi == INT_MIN || t < hi;
        if (t > 0 && go && !(lo != INT_MIN && t < lo)) go = (int)(c.results[static_cast<size_t>(t) - 1] & 3) != st;
        if (!go) break;
        auto T = std::to_string(t);
        if (t) want.push_back("external query(" + std::to_string(t - 1) + ") 3");
        want.push_back("ground check(" + T + ",) " + (t ? "step(" + T + ",)" : "base()"));
        want.push_back("external query(" + T + ") 1");
        want.push_back("solve");
        if (t == n) { expectThrown = true; break; }
    }
    if (c.failAt >= 0 && c.failAt < (int)want.size()) { want.resize(static_cast<size_t>(c.failAt) + 1); expectThrown = true; }
    symx_assert(c.calls == want, "steps are taken in order");
    symx_assert(thrown == expectThrown, "failures end the search");
    symx_reach("end");
}
// }}}
// {{{ (mode 1) real programs
struct Real : StandInControl {
    Session s;
    Symbol imax, imin, istop;
    bool open = false;
    std::vector<int> results;
    void add(std::string const &n, Gringo::StringVec const &p, std::string const &t) override {
        Location l("<block>", 1, 1, "<block>", 1, 1);
        Input::IdVec ids;
        for (auto &x : p) ids.emplace_back(l, x);
        s.parser->pushBlock(n, std::move(ids), t, s.log);
        s.parser->parse(s.log);
        symx_assert(!s.log.hasError() && s.prepare(), "accepted");
    }
    Symbol getConst(std::string const &n) const override { return n == "imax" ? imax : n == "imin" ? imin : istop; }
    void ground(GroundVec const &v, Context *) override {
        if (!open) { s.begin(true); open = true; }
        std::vector<std::pair<std::string, SymVec>> ps;
        for (auto &x : v) ps.emplace_back(x.first.c_str(), x.second);
        s.groundParts(ps);
    }
    void assignExternal(Symbol q, Potassco::Value_t v) override {
        auto a = s.out->find(q);
        symx_assert(a.second != nullptr && a.first != a.second->end(), "the query is an atom");
        symx_assert(a.first->isExternal(), "the query is external");
        // NOTE: assignments become part of the step
        if (!open) { s.begin(true); open = true; }
        pend.emplace_back(a.first->uid(), static_cast<int>(static_cast<unsigned>(v)));
    }
    std::vector<std::pair<Atom_t, int>> pend;
    USolveFuture solve(Assumptions, clingo_solve_mode_bitset_t, USolveEventHandler) override {
        s.end();
        open = false;
        for (auto &x : pend) s.rec.exts.push_back({x.first, x.second});
        pend.clear();
        Models m(s.rec);
        int n = 0;
        m.each([&] { if (symx_concrete(m.valid)) ++n; });
        results.push_back(n);
        return gringo_make_unique<Fut>(SolveResult(n ? 1u : 2u));
    }
};
// a problem that has a solution in steps from g on (except h), found by the constraints on the query
static void programs() {
    static char const *prgs[] = {
        "#include <incmode>. #program base. r(0). #program step(t). {r(t)} :- r(t-1). #program check(t). :- query(t), not r(g). :- query(t), t = h.",
        "#include <incmode>. #program base. {p(0)}. #program step(t). {p(t)}. s(t) :- p(t-1), t > g. ok(t) :- s(X), X <= t, t != h. #program check(t). :- query(t), not ok(t).",
        "#program check(t). :- query(t), 1 #sum { 1 : not v(t) }. #include <incmode>. #program step(k). v(k) :- k >= g, k != h, not w(k). {w(k)}. #program base. v(0) :- g <= 0, h != 0.",
        "#program base. #include <incmode>. #program step(t). a(t). #program check(t). {c(t)} :- query(t), t >= g. :- query(t), not c(t). :- query(t), c(h), t = h. :- c(X), query(X), X = h, X < g.",
    };
    int k = parts("case", 4);
    Real c;
    int g = symx_int("g", -1, 3), h = symx_int("h", -1, 3);
    int hi = constant("imax", c.imax, -1, 4), lo = constant("imin", c.imin, -1, 4), st = stop(c.istop);
    if (k == 0 && hi == INT_MIN) symx_assume(g >= 0);
    symx_assume(hi != INT_MIN || (st == 1 && !(h == 3 && g == 3)));
    if (hi == INT_MIN) symx_assume(lo < 4);
    c.s.define("g", num(g));
    c.s.define("h", num(h));
    symx_assert(c.s.parse(prgs[k]) && c.s.incmode, "iterative solving is asked for");
    incmode(c);
    // what the steps mean
    std::vector<int> want;
    for (int t = 0;; ++t) {
        bool go = hi == INT_MIN || t < hi;
        if (t > 0 && go && !(lo != INT_MIN && t < lo)) go = st == 0 || (st == 1) == !want.back();
        if (!go) break;
        bool sat = t >= g && t != h;
        if (k == 0) sat = g >= 0 && sat;
        if (k == 1) sat = t > std::max(g, 0) && t != h && true;
        want.push_back(sat);
        if (t > 6) symx_assert(false, "harness: too many steps");
    }
    std::vector<int> got;
    for (auto n : c.results) got.push_back(n > 0);
    symx_assert(got == want, "steps have the solutions they should have");
    symx_reach("end");
}
// }}}
int main() {
    if (symx_param("mode", 0) == 0) sequence();
    else programs();
}
