// C interface of the control: what is stated arrives unchanged, results come back unchanged, and errors on either side are reported with their code and message
#include "asp.hh"
#include <clingo.h>
#include <clingo/clingocontrol.hh>
#include <map>
using namespace H;
// {{{ calls that arrived
struct Rec {
    std::string names;
    std::vector<int64_t> v;
    void put(std::string const &s) { v.push_back(static_cast<int64_t>(s.size())); for (auto c : s) v.push_back(c); }
    void put(char const *s) { put(std::string(s)); }
    void put(Potassco::WeightLit_t const &w) { v.push_back(w.lit); v.push_back(w.weight); }
    void put(clingo_weighted_literal_t const &w) { v.push_back(w.literal); v.push_back(w.weight); }
    void put(Symbol s) { v.push_back(static_cast<int64_t>(s.rep())); }
    void put(String s) { put(std::string(s.c_str())); }
    template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type put(T x) { v.push_back(static_cast<int64_t>(x)); }
    template <class T> void put(std::vector<T> const &x) { v.push_back(static_cast<int64_t>(x.size())); for (auto y : x) put(y); }
    template <class T> void put(Potassco::Span<T> const &x) { v.push_back(static_cast<int64_t>(x.size)); for (auto &y : x) put(y); }
    void add() {}
    template <class T, class... A> void add(T const &x, A const &...a) { put(x); add(a...); }
    template <class... A> Rec &operator()(char const *n, A const &...a) { names += n; names += ' '; add(a...); return *this; }
    bool operator==(Rec const &o) const {
        if (names != o.names || v.size() != o.v.size()) return false;
        int same = 1;
        for (size_t i = 0; i < v.size(); ++i) same &= v[i] == o.v[i];
        return same;
    }
};
static Rec got;
static int boom; // 0: no error, 1: runtime, 2: logic, 3: memory
template <class... A> static void hit(char const *n, A const &...a) {
    got(n, a...);
    switch (boom) {
        case 1: throw std::runtime_error("boom");
        case 2: throw std::logic_error("boom");
        case 3: throw std::bad_alloc();
    }
}
// a call of the interface: fails exactly if what it calls fails, and with the same error
static int fail() { boom = pick("error", 4); return boom; }
static bool outcome(bool ok, Rec const &w) {
    symx_assert(got == w, "the call arrives as it was made");
    symx_assert(ok == (boom == 0), "success is reported");
    if (!ok) {
        symx_assert(clingo_error_code() == boom, "error code");
        symx_assert(std::string(clingo_error_message()) == (boom == 3 ? "bad_alloc" : "boom"), "error message");
    }
    return ok;
}
static int I(char const *n) { return symx_int(n, INT32_MIN, INT32_MAX); }
static unsigned U(char const *n) { return symx_uint(n, 0, UINT32_MAX); }
static bool B(char const *n) { return pick(n, 2); }
template <class T> static std::vector<T> many(std::string const &n, int max) {
    std::vector<T> r;
    int k = pick((n + ".size").c_str(), max + 1);
    for (int i = 0; i < k; ++i) r.push_back(static_cast<T>(I((n + std::to_string(i)).c_str())));
    return r;
}
static std::vector<clingo_weighted_literal_t> weighted(std::string const &n, int max) {
    std::vector<clingo_weighted_literal_t> r;
    int k = pick((n + ".size").c_str(), max + 1);
    for (int i = 0; i < k; ++i) r.push_back({I((n + std::to_string(i)).c_str()), I((n + "w" + std::to_string(i)).c_str())});
    return r;
}
static std::vector<clingo_symbol_t> reps(SymVec const &s) { std::vector<clingo_symbol_t> r; for (auto x : s) r.push_back(x.rep()); return r; }
static SymVec syms(std::string const &n, int max) {
    SymVec r;
    int k = pick((n + ".size").c_str(), max + 1);
    for (int i = 0; i < k; ++i) r.push_back(num(I((n + std::to_string(i)).c_str())));
    return r;
}
// }}}
// {{{ stand-ins for what lies behind the interface
struct Atoms : clingo_symbolic_atoms {
    SymVec s;
    Gringo::Symbol atom(SymbolicAtomIter it) const override { hit("atom", it); return s[it]; }
    Potassco::Lit_t literal(SymbolicAtomIter it) const override { hit("literal", it); return static_cast<int>(it) + 5; }
    bool fact(SymbolicAtomIter it) const override { hit("fact", it); return it & 1; }
    bool external(SymbolicAtomIter it) const override { hit("external", it); return it & 2; }
    SymbolicAtomIter next(SymbolicAtomIter it) const override { hit("next", it); return it + 1; }
    bool valid(SymbolicAtomIter it) const override { hit("valid", it); return it < s.size(); }
    SymbolicAtomIter begin(Sig sig) const override { hit("beginSig", sig.rep()); return 7; }
    SymbolicAtomIter begin() const override { hit("begin"); return 0; }
    SymbolicAtomIter lookup(Symbol a) const override { hit("lookup", a); return 3; }
    bool eq(SymbolicAtomIter it, SymbolicAtomIter jt) const override { hit("eq", it, jt); return it == jt; }
    SymbolicAtomIter end() const override { hit("end"); return s.size(); }
    std::vector<Sig> signatures() const override { hit("signatures"); return {Sig("p", 1, false), Sig("q", 0, true), Sig("r", 40, false)}; }
    size_t length() const override { hit("length"); return s.size(); }
};
struct Assign : Potassco::AbstractAssignment {
    std::map<int, std::pair<int, unsigned>> vals; // value and level
    unsigned lev = 0, un = 0;
    std::vector<int> trail; std::vector<unsigned> begins;
    uint32_t size() const override { return 4; }
    uint32_t unassigned() const override { return un; }
    bool hasConflict() const override { return un == 1; }
    uint32_t level() const override { return lev; }
    uint32_t rootLevel() const override { return lev / 2; }
    bool hasLit(Lit_t l) const override { return l > -4 && l < 4; }
    Value_t value(Lit_t l) const override { hit("value", l); return static_cast<Potassco::Value_t::E>(vals.at(l).first); }
    uint32_t level(Lit_t l) const override { hit("level", l); return vals.at(l).second; }
    Lit_t decision(uint32_t l) const override { hit("decision", l); return static_cast<int>(l) - 1; }
    uint32_t trailSize() const override { hit("trailSize"); return static_cast<uint32_t>(trail.size()); }
    Lit_t trailAt(uint32_t i) const override { hit("trailAt", i); return static_cast<int>(i) + 3; }
    uint32_t trailBegin(uint32_t i) const override { hit("trailBegin", i); return begins.at(i); }
};
struct Init : clingo_propagate_init {
    Assign as; Atoms at; Output::DomainData *dd = nullptr; int cm = 0, um = 0;
    Potassco::Lit_t addLiteral(bool f) override { hit("addLiteral", f); return 9; }
    bool addClause(Potassco::LitSpan l) override { hit("addClause", l); return l.size & 1; }
    bool addWeightConstraint(Potassco::Lit_t l, Potassco::WeightLitSpan w, Potassco::Weight_t b, int t, bool eq) override { hit("addWeightConstraint", l, w, b, t, eq); return eq; }
    void addMinimize(Potassco::Lit_t l, Potassco::Weight_t w, Potassco::Weight_t p) override { hit("addMinimize", l, w, p); }
    bool propagate() override { hit("propagate"); return un; }
    bool un = false;
    Output::DomainData const &theory() const override { hit("theory"); return *dd; }
    SymbolicAtoms const &getDomain() const override { hit("getDomain"); return at; }
    Lit_t mapLit(Lit_t l) const override { hit("mapLit", l); return 12; }
    void addWatch(Lit_t l) override { hit("addWatch", l); }
    void addWatch(uint32_t s, Lit_t l) override { hit("addWatchTo", s, l); }
    void removeWatch(Lit_t l) override { hit("removeWatch", l); }
    void removeWatch(uint32_t s, Lit_t l) override { hit("removeWatchFrom", s, l); }
    void freezeLiteral(Lit_t l) override { hit("freezeLiteral", l); }
    void enableHistory(bool) override {}
    Potassco::AbstractAssignment const &assignment() const override { return as; }
    int threads() const override { return 3; }
    clingo_propagator_check_mode_t getCheckMode() const override { return cm; }
    clingo_propagator_undo_mode_t getUndoMode() const override { return um; }
    void setCheckMode(clingo_propagator_check_mode_t m) override { cm = m; }
    void setUndoMode(clingo_propagator_undo_mode_t m) override { um = m; }
    typedef Potassco::Lit_t Lit_t;
};
struct Solver : Potassco::AbstractSolver {
    Assign as;
    bool r = false;
    Potassco::Id_t id() const override { return 6; }
    const Potassco::AbstractAssignment &assignment() const override { return as; }
    bool addClause(const Potassco::LitSpan &c, Potassco::Clause_t p) override { hit("addClause", c, static_cast<unsigned>(p)); return r; }
    Lit addVariable() override { hit("addVariable"); return 77; }
    bool propagate() override { hit("propagate"); return r; }
    bool hasWatch(Lit l) const override { got("hasWatch", l); return r; }
    void addWatch(Lit l) override { hit("addWatch", l); }
    void removeWatch(Lit l) override { got("removeWatch", l); }
};
struct TheModel : clingo_model {
    SymVec s; Int64Vec opt; std::vector<int> prio; Atoms at; int x = 0;
    bool contains(Symbol a) const override { hit("contains", a); return x & 1; }
    SymSpan atoms(ShowType t) const override { hit("atoms", t); return Potassco::toSpan(s); }
    Int64Vec optimization() const override { hit("optimization"); return opt; }
    std::vector<int> priorities() const override { hit("priorities"); return prio; }
    bool optimality_proven() const override { hit("proven"); return x & 1; }
    void addClause(Potassco::LitSpan const &l) const override { hit("addClause", l); }
    uint64_t number() const override { hit("number"); return (uint64_t(1) << 33) + 5; }
    Potassco::Id_t threadId() const override { hit("threadId"); return 8; }
    ModelType type() const override { hit("type"); return static_cast<ModelType>(x); }
    bool isTrue(Potassco::Lit_t l) const override { hit("isTrue", l); return x & 1; }
    ConsequenceType isConsequence(Potassco::Lit_t l) const override { hit("isConsequence", l); return static_cast<ConsequenceType>(x); }
    SymbolicAtoms const &getDomain() const override { hit("getDomain"); return at; }
    void add(Potassco::Span<Symbol> l) override { hit("add", l); }
};
struct Future : SolveFuture {
    TheModel *m; std::vector<int> core; int res = 0; int *gone; USolveEventHandler h;
    SolveResult get() override { hit("get"); return SolveResult(static_cast<unsigned>(res)); }
    Model const *model() override { hit("model"); return m; }
    Potassco::LitSpan unsatCore() override { hit("core"); return Potassco::toSpan(core); }
    Model const *lastModel() override { hit("last"); return m; }
    bool wait(double) override { got("wait"); return res & 1; }
    void cancel() override { hit("cancel"); }
    void resume() override { hit("resume"); }
    ~Future() override { ++*gone; }
};
struct Conf : ConfigProxy {
    int n = 0, m = 0, k = 0; char const *help = nullptr; std::string val;
    bool hasSubKey(unsigned key, char const *name) const override { hit("hasSubKey", key, name); return n > 0; }
    unsigned getSubKey(unsigned key, char const *name) const override { hit("getSubKey", key, name); return 21; }
    unsigned getArrKey(unsigned key, unsigned i) const override { hit("getArrKey", key, i); return 22; }
    void getKeyInfo(unsigned key, int *a, int *b, const char **h, int *c) const override {
        hit("getKeyInfo", key);
        if (a) *a = n;
        if (b) *b = m;
        if (h) *h = help;
        if (c) *c = k;
    }
    const char *getSubKeyName(unsigned key, unsigned i) const override { hit("getSubKeyName", key, i); return "sub"; }
    bool getKeyValue(unsigned key, std::string &v) const override { hit("getKeyValue", key); v = val; return true; }
    void setKeyValue(unsigned key, const char *v) override { hit("setKeyValue", key, v); }
    unsigned getRootKey() const override { hit("getRootKey"); return 23; }
};
struct Stats : Potassco::AbstractStatistics {
    int x = 0;
    Key_t root() const override { hit("root"); return 1ull << 40; }
    Potassco::Statistics_t type(Key_t k) const override { hit("type", k); return static_cast<Potassco::Statistics_t::E>(x); }
    size_t size(Key_t k) const override { hit("size", k); return 1ull << 35; }
    bool writable(Key_t) const override { return true; }
    Key_t at(Key_t k, size_t i) const override { hit("at", k, i); return 31; }
    Key_t push(Key_t k, Potassco::Statistics_t t) override { hit("push", k, static_cast<int>(t)); return 32; }
    const char *key(Key_t k, size_t i) const override { hit("key", k, i); return "stat"; }
    bool find(Key_t k, const char *n, Key_t *) const override { hit("find", k, n); return x & 1; }
    Key_t get(Key_t k, const char *n) const override { hit("get", k, n); return 33; }
    Key_t add(Key_t k, const char *n, Potassco::Statistics_t t) override { hit("add", k, n, static_cast<int>(t)); return 34; }
    double value(Key_t k) const override { hit("value", k); return 0.5; }
    void set(Key_t k, double v) override { hit("set", k, static_cast<int>(v * 4)); }
};
struct Ctl : StandInControl {
    UBackend obs; bool replace = false, avail = true, flag = false; Potassco::TheoryData td; Output::TheoryData th{td}; Output::DomainData dd{td};
    UProp prop; Conf conf; Atoms at; Symbol cst; Stats stats; int gone = 0; TheModel model; USolveEventHandler handler;
    std::function<void(Context *)> onGround;
    Potassco::Atom_t atoms = 100;
    NullBackend nb; Msgs msgs; Logger lg;
    Ctl() : lg([](Warnings, char const *) {}, 10) {}
    ConfigProxy &getConf() override { hit("getConf"); return conf; }
    SymbolicAtoms const &getDomain() const override { hit("getDomain"); return at; }
    void ground(GroundVec const &v, Context *c) override {
        got("ground", v.size());
        for (auto &x : v) { got.put(x.first); got.put(x.second); }
        if (onGround) onGround(c);
        hit("");
    }
    USolveFuture solve(Assumptions a, clingo_solve_mode_bitset_t m, USolveEventHandler h) override {
        hit("solve", a, m, h != nullptr);
        handler = std::move(h);
        auto f = gringo_make_unique<Future>();
        f->gone = &gone; f->m = &model;
        return std::move(f);
    }
    void interrupt() override { got("interrupt"); }
    void add(std::string const &n, Gringo::StringVec const &p, std::string const &s) override { hit("add", n, p, s); }
    void load(std::string const &f) override { hit("load", f); }
    void load_aspif(Potassco::Span<char const *> f) override { hit("load_aspif", f); }
    Symbol getConst(std::string const &n) const override { hit("getConst", n); return cst; }
    void assignExternal(Potassco::Atom_t a, Potassco::Value_t v) override { hit("assignExternal", a, static_cast<unsigned>(v)); }
    void updateProject(Potassco::AtomSpan a, bool append) override { hit("updateProject", a, append); }
    void removeMinimize() override { hit("removeMinimize"); }
    bool isConflicting() const noexcept override { return flag; }
    Potassco::AbstractStatistics const *statistics() const override { hit("statistics"); return &stats; }
    void useEnumAssumption(bool x) override { hit("useEnum", x); flag = x; }
    bool useEnumAssumption() const override { return flag; }
    void cleanup() override { hit("cleanup"); }
    void enableCleanup(bool x) override { hit("enableCleanup", x); flag = x; }
    bool enableCleanup() const override { return flag; }
    Output::DomainData const &theory() const override { hit("theory"); return dd; }
    void registerPropagator(UProp p, bool s) override { hit("registerPropagator", s); prop = std::move(p); }
    void registerObserver(UBackend b, bool r) override { hit("registerObserver", r); obs = std::move(b); }
    Potassco::Atom_t addProgramAtom() override { hit("addProgramAtom"); return ++atoms; }
    bool beginAddBackend() override { hit("beginAddBackend"); return avail; }
    Output::TheoryData &theoryData() override { return dd.theory(); }
    Id_t addAtom(Symbol s) override { hit("addAtom", s); return 41; }
    void addFact(Potassco::Atom_t a) override { hit("addFact", a); }
    Backend *getBackend() override { return obs.get(); }
    Backend &getASPIFBackend() override { return nb; }
    void endAddBackend() override { hit("endAddBackend"); }
    Logger &logger() override { return lg; }
    void beginAdd() override { hit("beginAdd"); }
    void add(clingo_ast_t const &a) override { hit("addTree", static_cast<int>(a.ast.type())); }
    void endAdd() override { hit("endAdd"); }
};
// }}}
// {{{ (mode 0) statements reach observers
static int obsFail; // error code an observer fails with
static bool answer() {
    if (!obsFail) return true;
    clingo_set_error(obsFail, "observer");
    return false;
}
template <class T> static std::vector<T> vec(T const *p, size_t n) { return std::vector<T>(p, p + n); }
static void *mark;
#define SEEN(...) symx_assert(d == mark, "data of the callback"); got(__VA_ARGS__); return answer()
static clingo_ground_program_observer_t observer() {
    clingo_ground_program_observer_t o;
    o.init_program = [](bool i, void *d) { SEEN("init", i); };
    o.begin_step = [](void *d) { SEEN("begin"); };
    o.end_step = [](void *d) { SEEN("end"); };
    o.rule = [](bool c, clingo_atom_t const *h, size_t hn, clingo_literal_t const *b, size_t bn, void *d) { SEEN("rule", c, vec(h, hn), vec(b, bn)); };
    o.weight_rule = [](bool c, clingo_atom_t const *h, size_t hn, clingo_weight_t l, clingo_weighted_literal_t const *b, size_t bn, void *d) { SEEN("weight", c, vec(h, hn), l, vec(b, bn)); };
    o.minimize = [](clingo_weight_t p, clingo_weighted_literal_t const *b, size_t bn, void *d) { SEEN("minimize", p, vec(b, bn)); };
    o.project = [](clingo_atom_t const *h, size_t hn, void *d) { SEEN("project", vec(h, hn)); };
    o.output_atom = [](clingo_symbol_t s, clingo_atom_t a, void *d) { SEEN("output", s, a); };
    o.output_term = [](clingo_symbol_t s, clingo_literal_t const *b, size_t bn, void *d) { SEEN("term", s, vec(b, bn)); };
    o.external = [](clingo_atom_t a, clingo_external_type_t t, void *d) { SEEN("external", a, t); };
    o.assume = [](clingo_literal_t const *b, size_t bn, void *d) { SEEN("assume", vec(b, bn)); };
    o.heuristic = [](clingo_atom_t a, clingo_heuristic_type_t t, int bias, unsigned p, clingo_literal_t const *b, size_t bn, void *d) { SEEN("heuristic", a, t, bias, p, vec(b, bn)); };
    o.acyc_edge = [](int u, int v, clingo_literal_t const *b, size_t bn, void *d) { SEEN("edge", u, v, vec(b, bn)); };
    o.theory_term_number = [](clingo_id_t i, int n, void *d) { SEEN("number", i, n); };
    o.theory_term_string = [](clingo_id_t i, char const *n, void *d) { SEEN("string", i, n); };
    o.theory_term_compound = [](clingo_id_t i, int n, clingo_id_t const *a, size_t an, void *d) { SEEN("compound", i, n, vec(a, an)); };
    o.theory_element = [](clingo_id_t i, clingo_id_t const *a, size_t an, clingo_literal_t const *b, size_t bn, void *d) { SEEN("element", i, vec(a, an), vec(b, bn)); };
    o.theory_atom = [](clingo_id_t i, clingo_id_t t, clingo_id_t const *a, size_t an, void *d) { SEEN("atom", i, t, vec(a, an)); };
    o.theory_atom_with_guard = [](clingo_id_t i, clingo_id_t t, clingo_id_t const *a, size_t an, clingo_id_t op, clingo_id_t r, void *d) { SEEN("guarded", i, t, vec(a, an), op, r); };
    return o;
}
static void statements() {
    Ctl c;
    int data = 0;
    mark = &data;
    bool null = B("null"), rep = B("replace");
    clingo_ground_program_observer_t o = {};
    if (!null) o = observer();
    Rec w;
    symx_assert(outcome(clingo_control_register_observer(&c, &o, rep, mark), w("registerObserver", rep)), "observer is taken");
    clingo_backend_t *b = nullptr;
    symx_assert(clingo_control_backend(&c, &b), "backend");
    obsFail = null ? 0 : pick("fail", 5);
    got = w = Rec();
    int k = parts("case", 20);
    int x = I("x"), y = I("y");
    unsigned u = U("u"), v = U("v"), t = U("t");
    auto as = many<unsigned>("a", 2);
    auto ls = many<int>("l", 2);
    auto sa = Potassco::toSpan(as);
    auto sl = Potassco::toSpan(ls);
    bool ok = true, bk = true, ch = false;
    auto direct = [&](std::function<void(Backend &)> f) { bk = false; try { f(*c.obs); } catch (std::exception const &e) { ok = false; symx_assert(clingo_error_code() == obsFail && std::string(e.what()) == "observer", "error of the observer"); } };
    switch (k) {
        case 0: {
            ch = B("choice");
            ok = clingo_backend_rule(b, ch, as.data(), as.size(), ls.data(), ls.size());
            if (!ch && as.size() == 1 && ls.empty()) w("addFact", as[0]);
            w("rule", ch, as, ls);
            break;
        }
        case 1: { ch = B("choice"); auto ws = weighted("w", 2); ok = clingo_backend_weight_rule(b, ch, as.data(), as.size(), x, ws.data(), ws.size()); w("weight", ch, as, x, ws); break; }
        case 2: { auto ws = weighted("w", 3); ok = clingo_backend_minimize(b, x, ws.data(), ws.size()); w("minimize", x, ws); break; }
        case 3: ok = clingo_backend_project(b, as.data(), as.size()); w("project", as); break;
        case 4: { unsigned e = static_cast<unsigned>(pick("type", 4)); ok = clingo_backend_external(b, u, static_cast<clingo_external_type_t>(e)); w("external", u, e); break; }
        case 5: ok = clingo_backend_assume(b, ls.data(), ls.size()); w("assume", ls); break;
        case 6: { int e = pick("type", 6); ok = clingo_backend_heuristic(b, u, e, x, v, ls.data(), ls.size()); w("heuristic", u, e, x, v, ls); break; }
        case 7: ok = clingo_backend_acyc_edge(b, x, y, ls.data(), ls.size()); w("edge", x, y, ls); break;
        case 8: { bool i = B("incremental"); direct([&](Backend &z) { z.initProgram(i); }); w("init", i); break; }
        case 9: direct([&](Backend &z) { z.beginStep(); }); w("begin"); break;
        case 10: direct([&](Backend &z) { z.endStep(); }); w("end"); break;
        case 11: direct([&](Backend &z) { z.output(num(x), u); }); w("output", num(x), u); break;
        case 12: direct([&](Backend &z) { z.output(num(x), sl); }); w("term", num(x), ls); break;
        case 13: direct([&](Backend &z) { z.theoryTerm(u, x); }); w("number", u, x); break;
        case 14: { std::string s(static_cast<size_t>(pick("len", 3)), static_cast<char>(symx_byte("char", 'a', 'c'))); std::string buf = s + "zz"; direct([&](Backend &z) { z.theoryTerm(u, Potassco::toSpan(buf.c_str(), s.size())); }); w("string", u, s); break; }
        case 15: direct([&](Backend &z) { z.theoryTerm(u, x, sa); }); w("compound", u, x, as); break;
        case 16: direct([&](Backend &z) { z.theoryElement(u, sa, sl); }); w("element", u, as, ls); break;
        case 17: direct([&](Backend &z) { z.theoryAtom(u, v, sa); }); w("atom", u, v, as); break;
        case 18: direct([&](Backend &z) { z.theoryAtom(u, v, sa, t, u); }); w("guarded", u, v, as, t, u); break;
        case 19: {
            // being available, atoms for symbols, and the end
            c.avail = B("available");
            obsFail = 0;
            fail();
            bool r = clingo_backend_begin(b);
            w("beginAddBackend");
            if (!boom && !c.avail) symx_assert(!r && clingo_error_code() == clingo_error_runtime, "no backend");
            else outcome(r, w);
            got = w = Rec();
            clingo_atom_t at = 0;
            Symbol s = B("function") ? fun("f", {num(x)}) : num(x);
            clingo_symbol_t sr = s.rep();
            bool some = B("symbol");
            r = clingo_backend_add_atom(b, some ? &sr : nullptr, &at);
            if (some && s.type() != SymbolType::Fun) symx_assert(!r && got.names.empty() && clingo_error_code() == clingo_error_runtime, "only functions are atoms");
            else if (outcome(r, some ? w("addAtom", s) : w("addProgramAtom"))) symx_assert(at == (some ? 41 : 101), "the atom");
            got = w = Rec();
            outcome(clingo_backend_end(b), w("endAddBackend"));
            symx_reach("end");
            return;
        }
    }
    if (null) { Rec f; if (w.names == "addFact rule ") f("addFact", as[0]); w = f; }
    symx_assert(got == w, "the observer sees the statement");
    symx_assert(ok == (obsFail == 0), "errors of the observer are reported");
    if (!ok && bk) symx_assert(clingo_error_code() == obsFail && std::string(clingo_error_message()) == "observer", "error of the observer");
    symx_reach("end");
}
// }}}
// {{{ (mode 1) the control
static std::string word(char const *n) { std::string s(1, static_cast<char>(symx_byte(n, 1, 255))); return s; }
static void control() {
    Ctl c;
    Rec w;
    int k = parts("case", 24);
    fail();
    int x = I("x");
    bool f = B("flag");
    std::string s = word("s");
    switch (k) {
        case 0: {
            std::string p = word("p"), q = word("q");
            char const *ps[] = {p.c_str(), q.c_str()};
            size_t n = static_cast<size_t>(pick("params", 3));
            Rec z;
            bool r = clingo_control_add(&c, s.c_str(), ps, n, "text");
            w("add", s, n);
            for (size_t i = 0; i < n; ++i) w.put(ps[i]);
            w.put("text");
            outcome(r, w);
            break;
        }
        case 1: {
            auto a = syms("a", 2), b = syms("b", 1);
            auto ra = reps(a), rb = reps(b);
            clingo_part_t ps[] = {{s.c_str(), ra.data(), ra.size()}, {"base", rb.data(), rb.size()}};
            size_t n = static_cast<size_t>(pick("groups", 3));
            bool ctx = false;
            c.onGround = [&](Context *y) { ctx = y != nullptr; };
            bool r = clingo_control_ground(&c, ps, n, nullptr, nullptr);
            w("ground", n);
            if (n > 0) w.add(s, a);
            if (n > 1) w.add("base", b);
            w("");
            outcome(r, w);
            symx_assert(!ctx, "no context");
            break;
        }
        case 2: {
            int v = pick("value", 3);
            // negated literals take the opposite value
            int want = x < 0 ? (v == 1 ? 2 : v == 2 ? 1 : v) : v;
            symx_assume(x != INT32_MIN);
            outcome(clingo_control_assign_external(&c, x, v), w("assignExternal", x < 0 ? -x : x, want));
            break;
        }
        case 3: symx_assume(x != INT32_MIN); outcome(clingo_control_release_external(&c, x), w("assignExternal", x < 0 ? -x : x, 3)); break;
        case 4: outcome(clingo_control_remove_minimize(&c), w("removeMinimize")); break;
        case 5: { auto as = many<unsigned>("a", 3); outcome(clingo_control_update_project(&c, as.data(), as.size(), f), w("updateProject", as, f)); break; }
        case 6: { clingo_symbolic_atoms_t const *r = nullptr; if (outcome(clingo_control_symbolic_atoms(&c, &r), w("getDomain"))) symx_assert(r == &c.at, "atoms"); break; }
        case 7: { clingo_theory_atoms_t const *r = nullptr; if (outcome(clingo_control_theory_atoms(&c, &r), w("theory"))) symx_assert(reinterpret_cast<Output::DomainData const *>(r) == &c.dd, "theory"); break; }
        case 8: case 9: {
            int kind = pick("kind", 4);
            c.cst = kind == 0 ? Symbol() : kind == 1 ? num(x) : kind == 2 ? id("d") : Symbol::createStr(s.c_str());
            bool def = false;
            clingo_symbol_t r = 0;
            if (k == 8) { if (outcome(clingo_control_has_const(&c, s.c_str(), &def), w("getConst", s))) symx_assert(def == (kind != 0), "constant is defined"); }
            else if (outcome(clingo_control_get_const(&c, s.c_str(), &r), w("getConst", s))) symx_assert(Symbol(r) == (kind ? c.cst : Symbol::createId(s.c_str())), "value of a constant");
            break;
        }
        case 10: outcome(clingo_control_load(&c, s.c_str()), w("load", s)); break;
        case 11: { char const *fs[] = {s.c_str(), "b"}; size_t n = static_cast<size_t>(pick("n", 3)); w("load_aspif", n); bool r = clingo_control_load_aspif(&c, fs, n); for (size_t i = 0; i < n; ++i) w.put(fs[i]); outcome(r, w); break; }
        case 12: { bool r = outcome(clingo_control_set_enable_enumeration_assumption(&c, f), w("useEnum", f)); if (r) symx_assert(clingo_control_get_enable_enumeration_assumption(&c) == f, "enumeration assumption"); break; }
        case 13: outcome(clingo_control_cleanup(&c), w("cleanup")); break;
        case 14: { bool r = outcome(clingo_control_set_enable_cleanup(&c, f), w("enableCleanup", f)); if (r) symx_assert(clingo_control_get_enable_cleanup(&c) == f, "cleanup"); break; }
        case 15: { clingo_configuration_t *r = nullptr; if (outcome(clingo_control_configuration(&c, &r), w("getConf"))) symx_assert(reinterpret_cast<ConfigProxy *>(r) == &c.conf, "configuration"); break; }
        case 16: boom = 0; c.flag = f; symx_assert(clingo_control_is_conflicting(&c) == f, "conflicting"); break;
        case 17: { clingo_statistics_t const *r = nullptr; if (outcome(clingo_control_statistics(&c, &r), w("statistics"))) symx_assert(reinterpret_cast<Potassco::AbstractStatistics const *>(r) == &c.stats, "statistics"); break; }
        case 18: boom = 0; clingo_control_interrupt(&c); symx_assert(got == w("interrupt"), "interrupt"); break;
        case 19: {
            auto as = many<int>("a", 3);
            clingo_solve_handle_t *h = nullptr;
            unsigned m = static_cast<unsigned>(pick("manner", 4));
            bool cb = B("cb");
            bool r = clingo_control_solve(&c, m, as.data(), as.size(), cb ? [](clingo_solve_event_type_t, void *, void *, bool *) { return true; } : static_cast<clingo_solve_event_callback_t>(nullptr), nullptr, &h);
            if (outcome(r, w("solve", as, m, cb))) { boom = 0; symx_assert(clingo_solve_handle_close(h) && c.gone == 1, "handle is closed"); symx_assert(clingo_solve_handle_close(nullptr), "no handle"); }
            break;
        }
        case 20: case 21: case 22: {
            clingo_program_builder_t *b = nullptr;
            symx_assert(clingo_program_builder_init(&c, &b), "builder");
            Input::SAST a(clingo_ast_type_rule);
            if (k == 20) outcome(clingo_program_builder_begin(b), w("beginAdd"));
            if (k == 21) outcome(clingo_program_builder_end(b), w("endAdd"));
            if (k == 22) outcome(clingo_program_builder_add(b, reinterpret_cast<clingo_ast_t *>(a.get())), w("addTree", static_cast<int>(clingo_ast_type_rule)));
            break;
        }
        case 23: {
            // error codes and messages
            boom = 0;
            int code = I("code");
            clingo_set_error(code, s.c_str());
            symx_assert(clingo_error_code() == code && s == clingo_error_message(), "error that was set");
            for (int i = 0; i < 5; ++i) symx_assert(clingo_error_string(i) != nullptr, "name of an error");
            symx_assert(clingo_error_string(5) == nullptr && clingo_error_string(-1) == nullptr, "no name of other numbers");
            for (int i = -1; i < 9; ++i) symx_assert((std::string(clingo_warning_string(i)) == "unknown message code") == (i < 0 || i > 6), "name of a message code");
        }
    }
    symx_reach("end");
}
// }}}
// {{{ (mode 2) models and handles of searches
static void models() {
    TheModel m;
    Rec w;
    int k = parts("case", 20);
    fail();
    int x = I("x");
    m.x = pick("result", 3);
    auto *p = &m;
    size_t n = 99;
    switch (k) {
        case 0: { clingo_id_t r = 0; if (outcome(clingo_model_thread_id(p, &r), w("threadId"))) symx_assert(r == 8, "thread"); break; }
        case 1: { auto ls = many<int>("l", 3); clingo_solve_control_t *sc = nullptr; symx_assert(clingo_model_context(p, &sc), "context"); outcome(clingo_solve_control_add_clause(sc, ls.data(), ls.size()), w("addClause", ls)); break; }
        case 2: { clingo_solve_control_t *sc = nullptr; clingo_symbolic_atoms_t const *r = nullptr; symx_assert(clingo_model_context(p, &sc), "context"); if (outcome(clingo_solve_control_symbolic_atoms(sc, &r), w("getDomain"))) symx_assert(r == &m.at, "atoms"); break; }
        case 3: { bool r = false; Symbol s = num(x); if (outcome(clingo_model_contains(p, s.rep(), &r), w("contains", s))) symx_assert(r == (m.x & 1), "contained"); break; }
        case 4: case 5: {
            m.s = syms("s", 3);
            unsigned show = U("show");
            if (k == 4) { if (outcome(clingo_model_symbols_size(p, show, &n), w("atoms", show))) symx_assert(n == m.s.size(), "number of symbols"); break; }
            size_t have = static_cast<size_t>(pick("have", 5));
            std::vector<clingo_symbol_t> r(have + 1, 4711);
            bool ok = clingo_model_symbols(p, show, r.data(), have);
            if (!boom && have < m.s.size()) { symx_assert(!ok && clingo_error_code() != 0, "too little space is reported"); for (auto z : r) symx_assert(z == 4711, "nothing is written"); }
            else if (outcome(ok, w("atoms", show))) { for (size_t i = 0; i < r.size(); ++i) symx_assert(r[i] == (i < m.s.size() ? m.s[i].rep() : 4711), "symbols in order"); }
            break;
        }
        case 6: { bool r = false; if (outcome(clingo_model_optimality_proven(p, &r), w("proven"))) symx_assert(r == (m.x & 1), "proven"); break; }
        case 7: case 8: {
            for (auto z : many<int>("c", 3)) m.opt.push_back(static_cast<int64_t>(z));
            if (k == 7) { if (outcome(clingo_model_cost_size(p, &n), w("optimization"))) symx_assert(n == m.opt.size(), "number of costs"); break; }
            size_t have = static_cast<size_t>(pick("have", 5));
            std::vector<int64_t> r(have + 1, -4711);
            bool ok = clingo_model_cost(p, r.data(), have);
            if (!boom && have < m.opt.size()) symx_assert(!ok && clingo_error_code() != 0, "too little space is reported");
            else if (outcome(ok, w("optimization"))) { for (size_t i = 0; i < r.size(); ++i) symx_assert(r[i] == (i < m.opt.size() ? m.opt[i] : -4711), "costs in order"); }
            break;
        }
        case 9: {
            m.prio = many<int>("p", 3);
            size_t have = static_cast<size_t>(pick("have", 5));
            std::vector<int> r(have + 1, -4711);
            bool ok = clingo_model_priority(p, r.data(), have);
            if (!boom && have < m.prio.size()) symx_assert(!ok && clingo_error_code() != 0, "too little space is reported");
            else if (outcome(ok, w("priorities"))) { for (size_t i = 0; i < r.size(); ++i) symx_assert(r[i] == (i < m.prio.size() ? m.prio[i] : -4711), "priorities in order"); }
            break;
        }
        case 10: { auto s = syms("s", 3); auto r = reps(s); outcome(clingo_model_extend(p, r.data(), r.size()), w("add", s)); break; }
        case 11: { uint64_t r = 0; if (outcome(clingo_model_number(p, &r), w("number"))) symx_assert(r == (uint64_t(1) << 33) + 5, "number"); break; }
        case 12: { clingo_model_type_t r = 9; if (outcome(clingo_model_type(p, &r), w("type"))) symx_assert(r == m.x, "type"); break; }
        case 13: { bool r = false; if (outcome(clingo_model_is_true(p, x, &r), w("isTrue", x))) symx_assert(r == (m.x & 1), "truth"); break; }
        case 14: { clingo_consequence_t r = 9; if (outcome(clingo_model_is_consequence(p, x, &r), w("isConsequence", x))) symx_assert(r == static_cast<clingo_consequence_t>(m.x), "consequence"); break; }
        default: {
            int gone = 0;
            Future f;
            f.gone = &gone; f.m = &m;
            auto *h = reinterpret_cast<clingo_solve_handle_t *>(static_cast<SolveFuture *>(&f));
            clingo_model_t const *r = nullptr;
            if (k == 15) { f.res = pick("res", 16); clingo_solve_result_bitset_t res = 99; if (outcome(clingo_solve_handle_get(h, &res), w("get"))) symx_assert(res == static_cast<unsigned>(f.res), "result"); }
            if (k == 16) { if (outcome(clingo_solve_handle_model(h, &r), w("model"))) symx_assert(r == &m, "model"); }
            if (k == 17) { if (outcome(clingo_solve_handle_last(h, &r), w("last"))) symx_assert(r == &m, "last model"); }
            if (k == 18) { f.core = many<int>("l", 3); clingo_literal_t const *c = nullptr; if (outcome(clingo_solve_handle_core(h, &c, &n), w("core"))) symx_assert(vec(c, n) == f.core, "core"); }
            if (k == 19) { outcome(B("resume") ? (w("resume"), clingo_solve_handle_resume(h)) : (w("cancel"), clingo_solve_handle_cancel(h)), w); }
        }
    }
    symx_reach("end");
}
// }}}
// {{{ (mode 3) assignments, and what propagators talk to
static void propagation() {
    Init in;
    Solver so;
    Rec w;
    int k = parts("case", 30);
    fail();
    int x = I("x");
    bool f = B("flag"), r = false;
    auto *as = reinterpret_cast<clingo_assignment_t const *>(static_cast<Potassco::AbstractAssignment const *>(&in.as));
    auto *pc = reinterpret_cast<clingo_propagate_control_t *>(static_cast<Potassco::AbstractSolver *>(&so));
    int val = pick("value", 3);
    int lit = pick("literal", 4) - 2;
    unsigned lev = static_cast<unsigned>(pick("level", 3));
    in.as.vals[lit] = {val, lev};
    in.as.lev = 2; in.as.trail = {1, 2, 3, 4, 5}; in.as.begins = {0, 2, 4};
    in.as.un = lev;
    so.r = in.un = f;
    uint32_t v = 0;
    clingo_truth_value_t tv = 9;
    clingo_literal_t l = 0;
    bool ok;
    switch (k) {
        case 0: symx_assert(clingo_assignment_has_conflict(as) == (lev == 1) && clingo_assignment_decision_level(as) == 2 && clingo_assignment_root_level(as) == 1 && clingo_assignment_size(as) == 4 && clingo_assignment_is_total(as) == (lev == 0) && clingo_assignment_has_literal(as, x) == (x > -4 && x < 4), "state of the assignment"); break;
        case 1: if (outcome(clingo_assignment_truth_value(as, lit, &tv), w("value", lit))) symx_assert(tv == val, "value"); break;
        case 2: if (outcome(clingo_assignment_level(as, lit, &v), w("level", lit))) symx_assert(v == lev, "level"); break;
        case 3: if (outcome(clingo_assignment_decision(as, lev, &l), w("decision", lev))) symx_assert(l == static_cast<int>(lev) - 1, "decision"); break;
        case 4: ok = clingo_assignment_is_fixed(as, lit, &r); if (ok) symx_assert(r == (val != 0 && lev == 0), "fixed"); symx_assert(ok == !boom, "success is reported"); break;
        case 5: if (outcome(clingo_assignment_is_true(as, lit, &r), w("value", lit))) symx_assert(r == (val == 1), "true"); break;
        case 6: if (outcome(clingo_assignment_is_false(as, lit, &r), w("value", lit))) symx_assert(r == (val == 2), "false"); break;
        case 7: { size_t o = static_cast<size_t>(pick("offset", 6)); boom = 0; ok = clingo_assignment_at(as, o, &l); symx_assert(ok == (o < 4) && (!ok || l == static_cast<int>(o) + 1), "literal of the assignment"); break; }
        case 8: if (outcome(clingo_assignment_trail_size(as, &v), w("trailSize"))) symx_assert(v == 5, "size of the trail"); break;
        case 9: if (outcome(clingo_assignment_trail_begin(as, lev, &v), w("trailBegin", lev))) symx_assert(v == in.as.begins[lev], "begin of a level"); break;
        case 10: ok = clingo_assignment_trail_end(as, lev, &v); symx_assert(ok == !boom && (!ok || v == (lev == 2 ? 5 : in.as.begins[lev + 1])), "end of a level"); break;
        case 11: if (outcome(clingo_assignment_trail_at(as, static_cast<uint32_t>(x), &l), w("trailAt", static_cast<uint32_t>(x)))) symx_assert(l == static_cast<int>(static_cast<uint32_t>(x)) + 3, "literal of the trail"); break;
        case 12: if (outcome(clingo_propagate_init_solver_literal(&in, x, &l), w("mapLit", x))) symx_assert(l == 12, "solver literal"); break;
        case 13: outcome(clingo_propagate_init_add_watch(&in, x), w("addWatch", x)); break;
        case 14: { unsigned t = U("thread"); outcome(clingo_propagate_init_add_watch_to_thread(&in, x, t), w("addWatchTo", t, x)); break; }
        case 15: outcome(clingo_propagate_init_remove_watch(&in, x), w("removeWatch", x)); break;
        case 16: { unsigned t = U("thread"); outcome(clingo_propagate_init_remove_watch_from_thread(&in, x, t), w("removeWatchFrom", t, x)); break; }
        case 17: outcome(clingo_propagate_init_freeze_literal(&in, x), w("freezeLiteral", x)); break;
        case 18: { clingo_symbolic_atoms_t const *a = nullptr; if (outcome(clingo_propagate_init_symbolic_atoms(&in, &a), w("getDomain"))) symx_assert(a == &in.at, "atoms"); break; }
        case 19: {
            int cm = I("check"), um = I("undo");
            clingo_propagate_init_set_check_mode(&in, cm);
            clingo_propagate_init_set_undo_mode(&in, um);
            symx_assert(clingo_propagate_init_get_check_mode(&in) == cm && clingo_propagate_init_get_undo_mode(&in) == um && in.cm == cm && in.um == um, "modes");
            symx_assert(clingo_propagate_init_number_of_threads(&in) == 3, "threads");
            symx_assert(clingo_propagate_init_assignment(&in) == as, "assignment");
            break;
        }
        case 20: if (outcome(clingo_propagate_init_add_literal(&in, f, &l), w("addLiteral", f))) symx_assert(l == 9, "literal"); break;
        case 21: { auto ls = many<int>("l", 3); if (outcome(clingo_propagate_init_add_clause(&in, ls.data(), ls.size(), &r), w("addClause", ls))) symx_assert(r == (ls.size() & 1), "result"); break; }
        case 22: { auto ws = weighted("w", 2); int b = I("bound"), t = pick("type", 3) - 1; if (outcome(clingo_propagate_init_add_weight_constraint(&in, x, ws.data(), ws.size(), b, t, f, &r), w("addWeightConstraint", x, ws, b, t, f))) symx_assert(r == f, "result"); break; }
        case 23: { int a = I("weight"), b = I("priority"); outcome(clingo_propagate_init_add_minimize(&in, x, a, b), w("addMinimize", x, a, b)); break; }
        case 24: if (outcome(clingo_propagate_init_propagate(&in, &r), w("propagate"))) symx_assert(r == f, "result"); break;
        case 25: { auto ls = many<int>("l", 3); int t = pick("type", 4); if (outcome(clingo_propagate_control_add_clause(pc, ls.data(), ls.size(), t, &r), w("addClause", ls, t))) symx_assert(r == f, "result"); break; }
        case 26: if (outcome(clingo_propagate_control_propagate(pc, &r), w("propagate"))) symx_assert(r == f, "result"); break;
        case 27: if (outcome(clingo_propagate_control_add_literal(pc, &l), w("addVariable"))) symx_assert(l == 77, "literal"); break;
        case 28: outcome(clingo_propagate_control_add_watch(pc, x), w("addWatch", x)); break;
        case 29: {
            symx_assert(clingo_propagate_control_has_watch(pc, x) == f, "watched");
            clingo_propagate_control_remove_watch(pc, x);
            symx_assert(got == w("hasWatch", x)("removeWatch", x), "watches");
            symx_assert(clingo_propagate_control_thread_id(pc) == 6 && clingo_propagate_control_assignment(pc) == reinterpret_cast<clingo_assignment_t const *>(static_cast<Potassco::AbstractAssignment const *>(&so.as)), "thread and assignment");
        }
    }
    symx_reach("end");
}
// }}}
// {{{ (mode 4) configuration, statistics, and symbolic atoms
static void tables() {
    Conf co;
    Stats st;
    Atoms at;
    at.s = {num(1), num(2), num(3), num(4)};
    Rec w;
    int k = parts("case", 33);
    fail();
    auto *c = reinterpret_cast<clingo_configuration_t *>(static_cast<ConfigProxy *>(&co));
    auto *s = reinterpret_cast<clingo_statistics_t *>(static_cast<Potassco::AbstractStatistics *>(&st));
    unsigned key = U("key");
    uint64_t big = (static_cast<uint64_t>(U("high")) << 32) | key;
    std::string nm = word("name");
    co.n = symx_int("subkeys", -1, 3); co.m = symx_int("length", -1, 3); co.k = symx_int("values", -1, 3);
    clingo_id_t id = 0;
    uint64_t ky = 0;
    bool r = false, ok;
    size_t n = 0;
    char const *str = nullptr;
    clingo_symbolic_atom_iterator_t it = static_cast<clingo_symbolic_atom_iterator_t>(pick("it", 4)), jt = 0;
    switch (k) {
        case 0: { clingo_configuration_type_bitset_t t = 99; if (outcome(clingo_configuration_type(c, key, &t), w("getKeyInfo", key))) symx_assert(t == static_cast<unsigned>((co.n > 0 ? clingo_configuration_type_map : 0) | (co.m >= 0 ? clingo_configuration_type_array : 0) | (co.k >= 0 ? clingo_configuration_type_value : 0)), "kinds of an entry"); break; }
        case 1: if (outcome(clingo_configuration_map_at(c, key, nm.c_str(), &id), w("getSubKey", key, nm))) symx_assert(id == 21, "entry"); break;
        case 2: if (outcome(clingo_configuration_map_has_subkey(c, key, nm.c_str(), &r), w("hasSubKey", key, nm))) symx_assert(r == (co.n > 0), "has entry"); break;
        case 3: { unsigned i = U("index"); if (outcome(clingo_configuration_map_subkey_name(c, key, i, &str), w("getSubKeyName", key, i))) symx_assert(std::string(str) == "sub", "name"); break; }
        case 4: case 6: {
            int z = k == 4 ? co.n : co.m;
            ok = k == 4 ? clingo_configuration_map_size(c, key, &n) : clingo_configuration_array_size(c, key, &n);
            if (!boom && z < 0) symx_assert(!ok && clingo_error_code() == clingo_error_runtime, "wrong kind is reported");
            else if (outcome(ok, w("getKeyInfo", key))) symx_assert(n == static_cast<size_t>(z), "size");
            break;
        }
        case 5: { unsigned i = U("index"); if (outcome(clingo_configuration_array_at(c, key, i, &id), w("getArrKey", key, i))) symx_assert(id == 22, "entry"); break; }
        case 7: if (outcome(clingo_configuration_root(c, &id), w("getRootKey"))) symx_assert(id == 23, "root"); break;
        case 8: {
            bool has = B("has");
            co.help = has ? "help" : nullptr;
            ok = clingo_configuration_description(c, key, &str);
            if (!boom && !has) symx_assert(!ok && clingo_error_code() == clingo_error_runtime, "missing description is reported");
            else if (outcome(ok, w("getKeyInfo", key))) symx_assert(std::string(str) == "help", "description");
            break;
        }
        case 9: case 10: {
            co.val = std::string(static_cast<size_t>(pick("len", 4)), 'v');
            if (k == 9) { if (outcome(clingo_configuration_value_get_size(c, key, &n), w("getKeyValue", key))) symx_assert(n == co.val.size() + 1, "size of a value"); break; }
            size_t have = static_cast<size_t>(pick("have", 6));
            std::vector<char> b(have + 2, 'Z');
            ok = clingo_configuration_value_get(c, key, b.data(), have);
            if (!boom && have <= co.val.size()) { symx_assert(!ok && clingo_error_code() != 0, "too little space is reported"); for (auto z : b) symx_assert(z == 'Z', "nothing is written"); }
            else if (outcome(ok, w("getKeyValue", key))) { symx_assert(co.val == b.data(), "value"); symx_assert(b[have] == 'Z', "nothing is written behind the buffer"); }
            break;
        }
        case 11: outcome(clingo_configuration_value_set(c, key, nm.c_str()), w("setKeyValue", key, nm)); break;
        case 12: ok = clingo_configuration_value_is_assigned(c, key, &r); if (!boom && co.k < 0) symx_assert(!ok && clingo_error_code() == clingo_error_runtime, "wrong kind is reported"); else if (outcome(ok, w("getKeyInfo", key))) symx_assert(r == (co.k > 0), "assigned"); break;
        case 13: if (outcome(clingo_statistics_root(s, &ky), w("root"))) symx_assert(ky == 1ull << 40, "root"); break;
        case 14: { clingo_statistics_type_t t = 9; st.x = pick("type", 4); if (outcome(clingo_statistics_type(s, big, &t), w("type", big))) symx_assert(t == st.x, "type"); break; }
        case 15: if (outcome(clingo_statistics_array_size(s, big, &n), w("size", big))) symx_assert(n == 1ull << 35, "size"); break;
        case 16: { uint64_t i = (static_cast<uint64_t>(U("ihigh")) << 32) | 5; if (outcome(clingo_statistics_array_at(s, big, i, &ky), w("at", big, i))) symx_assert(ky == 31, "entry"); break; }
        case 17: { int t = pick("type", 4); if (outcome(clingo_statistics_array_push(s, big, t, &ky), w("push", big, t))) symx_assert(ky == 32, "entry"); break; }
        case 18: if (outcome(clingo_statistics_map_size(s, big, &n), w("size", big))) symx_assert(n == 1ull << 35, "size"); break;
        case 19: st.x = pick("x", 2); if (outcome(clingo_statistics_map_has_subkey(s, big, nm.c_str(), &r), w("find", big, nm))) symx_assert(r == (st.x & 1), "has entry"); break;
        case 20: { uint64_t i = U("index"); if (outcome(clingo_statistics_map_subkey_name(s, big, i, &str), w("key", big, i))) symx_assert(std::string(str) == "stat", "name"); break; }
        case 21: if (outcome(clingo_statistics_map_at(s, big, nm.c_str(), &ky), w("get", big, nm))) symx_assert(ky == 33, "entry"); break;
        case 22: { int t = pick("type", 4); if (outcome(clingo_statistics_map_add_subkey(s, big, nm.c_str(), t, &ky), w("add", big, nm, t))) symx_assert(ky == 34, "entry"); break; }
        case 23: { double v = 0; if (outcome(clingo_statistics_value_get(s, big, &v), w("value", big))) symx_assert(v == 0.5, "value"); break; }
        case 24: outcome(clingo_statistics_value_set(s, big, 0.75), w("set", big, 3)); break;
        case 25: { clingo_signature_t sg = 0; bool sig = B("sig"); symx_assert(clingo_signature_create("p", 2, B("positive"), &sg), "signature"); ok = clingo_symbolic_atoms_begin(&at, sig ? &sg : nullptr, &jt); if (outcome(ok, sig ? w("beginSig", sg) : w("begin"))) symx_assert(jt == (sig ? 7 : 0), "first atom"); break; }
        case 26: if (outcome(clingo_symbolic_atoms_end(&at, &jt), w("end"))) symx_assert(jt == 4, "end"); break;
        case 27: { Symbol a = num(I("x")); if (outcome(clingo_symbolic_atoms_find(&at, a.rep(), &jt), w("lookup", a))) symx_assert(jt == 3, "found"); break; }
        case 28: jt = static_cast<clingo_symbolic_atom_iterator_t>(pick("jt", 3)); if (outcome(clingo_symbolic_atoms_iterator_is_equal_to(&at, it, jt, &r), w("eq", it, jt))) symx_assert(r == (it == jt), "same place"); break;
        case 29: if (outcome(clingo_symbolic_atoms_signatures_size(&at, &n), w("signatures"))) symx_assert(n == 3, "number of signatures"); break;
        case 30: {
            size_t have = static_cast<size_t>(pick("have", 5));
            std::vector<clingo_signature_t> g(have + 1, 4711);
            ok = clingo_symbolic_atoms_signatures(&at, g.data(), have);
            if (!boom && have < 3) { symx_assert(!ok && clingo_error_code() != 0, "too little space is reported"); for (auto z : g) symx_assert(z == 4711, "nothing is written"); }
            else if (outcome(ok, w("signatures"))) {
                symx_assert(std::string(clingo_signature_name(g[0])) == "p" && clingo_signature_arity(g[0]) == 1 && clingo_signature_is_positive(g[0]) && !clingo_signature_is_negative(g[0]), "first signature");
                symx_assert(std::string(clingo_signature_name(g[1])) == "q" && clingo_signature_arity(g[1]) == 0 && !clingo_signature_is_positive(g[1]) && clingo_signature_is_negative(g[1]), "second signature");
                symx_assert(std::string(clingo_signature_name(g[2])) == "r" && clingo_signature_arity(g[2]) == 40, "third signature");
            }
            break;
        }
        case 31: {
            switch (pick("what", 4)) {
                case 0: if (outcome(clingo_symbolic_atoms_size(&at, &n), w("length"))) symx_assert(n == 4, "number of atoms"); break;
                case 1: { clingo_symbol_t sy = 0; if (outcome(clingo_symbolic_atoms_symbol(&at, it, &sy), w("atom", it))) symx_assert(sy == at.s[it].rep(), "symbol"); break; }
                case 2: { clingo_literal_t l = 0; if (outcome(clingo_symbolic_atoms_literal(&at, it, &l), w("literal", it))) symx_assert(l == static_cast<int>(it) + 5, "literal"); break; }
                default: if (outcome(clingo_symbolic_atoms_next(&at, it, &jt), w("next", it))) symx_assert(jt == it + 1, "next");
            }
            break;
        }
        case 32: {
            switch (pick("what", 3)) {
                case 0: if (outcome(clingo_symbolic_atoms_is_fact(&at, it, &r), w("fact", it))) symx_assert(r == (it & 1), "fact"); break;
                case 1: if (outcome(clingo_symbolic_atoms_is_external(&at, it, &r), w("external", it))) symx_assert(r == ((it & 2) != 0), "external"); break;
                default: if (outcome(clingo_symbolic_atoms_is_valid(&at, it, &r), w("valid", it))) symx_assert(r == (it < 4), "valid");
            }
        }
    }
    symx_reach("end");
}
// }}}
// {{{ (mode 5) theory atoms: what is built is read back
static std::string termText(clingo_theory_atoms_t const *t, clingo_id_t i) {
    size_t n = 0;
    symx_assert(clingo_theory_atoms_term_to_string_size(t, i, &n), "text size");
    std::vector<char> b(n + 1, 'Z');
    symx_assert(clingo_theory_atoms_term_to_string(t, i, b.data(), n) && b[n - 1] == 0 && b[n] == 'Z', "text");
    if (n > 1) symx_assert(!clingo_theory_atoms_term_to_string(t, i, b.data(), n - 1) && b[n] == 'Z', "text fits its buffer or is refused");
    return b.data();
}
static void theory() {
    Ctl c;
    boom = 0;
    clingo_backend_t *b = nullptr;
    clingo_theory_atoms_t const *t = nullptr;
    symx_assert(clingo_control_backend(&c, &b) && clingo_control_theory_atoms(&c, &t), "interfaces");
    int x = symx_int("x", -1, 1), y = symx_int("y", -1, 1);
    static const char *names[] = {"f", "+", "-", "a", "<="};
    int fn = pick("name", 5);
    clingo_id_t n1 = 0, n2 = 0, s1 = 0, f1 = 0, q1 = 0, y1 = 0;
    symx_assert(clingo_backend_theory_term_number(b, x, &n1) && clingo_backend_theory_term_number(b, y, &n2), "numbers");
    symx_assert(clingo_backend_theory_term_string(b, "str", &s1), "string");
    std::vector<clingo_id_t> args{n1, n2, s1};
    int na = 1 + pick("args", 3);
    args.resize(static_cast<size_t>(na));
    symx_assert(clingo_backend_theory_term_function(b, names[fn], args.data(), args.size(), &f1), "function");
    int sq = pick("sequence", 3);
    symx_assert(clingo_backend_theory_term_sequence(b, static_cast<clingo_theory_sequence_type_t>(sq), args.data(), args.size(), &q1), "sequence");
    Symbol sy = fun("g", {num(3), Symbol::createFun("", Potassco::toSpan(SymVec{num(y)})), Symbol::createStr("t")});
    symx_assert(clingo_backend_theory_term_symbol(b, sy.rep(), &y1), "symbol");
    auto type = [&](clingo_id_t i) { clingo_theory_term_type_t r = 99; symx_assert(clingo_theory_atoms_term_type(t, i, &r), "type"); return r; };
    int v = 0;
    char const *s = nullptr;
    clingo_id_t const *as = nullptr;
    size_t n = 0;
    symx_assert((n1 == n2) == (x == y), "equal terms are one");
    symx_assert(type(n1) == clingo_theory_term_type_number && clingo_theory_atoms_term_number(t, n1, &v) && v == x, "number is read back");
    symx_assert(type(s1) == clingo_theory_term_type_symbol && clingo_theory_atoms_term_name(t, s1, &s) && std::string(s) == "str", "string is read back");
    symx_assert(type(f1) == clingo_theory_term_type_function && clingo_theory_atoms_term_name(t, f1, &s) && std::string(s) == names[fn] && clingo_theory_atoms_term_arguments(t, f1, &as, &n) && vec(as, n) == args, "function is read back");
    static const clingo_theory_term_type_t ts[] = {clingo_theory_term_type_tuple, clingo_theory_term_type_set, clingo_theory_term_type_list};
    symx_assert(type(q1) == ts[sq] && clingo_theory_atoms_term_arguments(t, q1, &as, &n) && vec(as, n) == args, "sequence is read back");
    symx_assert(type(y1) == clingo_theory_term_type_function && clingo_theory_atoms_term_arguments(t, y1, &as, &n) && n == 3 && type(as[0]) == clingo_theory_term_type_number && type(as[1]) == clingo_theory_term_type_tuple && type(as[2]) == clingo_theory_term_type_symbol, "symbol is read back");
    auto N = [](int z) { return z < 0 ? "(" + std::to_string(z) + ")" : std::to_string(z); };
    std::string l[] = {N(symx_concrete(x)), N(symx_concrete(y)), "str"};
    std::string all, list;
    for (int i = 0; i < na; ++i) { list += (i ? "," : "") + l[i]; }
    static const char *open[] = {"(", "{", "["}, *close[] = {")", "}", "]"};
    symx_assert(termText(t, q1) == open[sq] + list + (sq == 0 && na == 1 ? "," : "") + close[sq], "text of a sequence");
    symx_assert(termText(t, y1) == "g(3,(" + l[1] + ",),\"t\")", "text of a symbol");
    bool op = fn == 1 || fn == 2 || fn == 4;
    if (!op || na == 3) symx_assert(termText(t, f1) == names[fn] + ("(" + list + ")"), "text of a function");
    // elements and atoms
    int l0 = symx_int("l0", 3, 4), l1 = symx_int("l1", 4, 5);
    std::vector<clingo_literal_t> cond{l0, l1};
    cond.resize(static_cast<size_t>(pick("cond", 3)));
    clingo_id_t e1 = 0, e2 = 0;
    symx_assert(clingo_backend_theory_element(b, args.data(), args.size(), cond.data(), cond.size(), &e1), "element");
    symx_assert(clingo_backend_theory_element(b, args.data(), 1, nullptr, 0, &e2), "element");
    clingo_literal_t const *ls = nullptr;
    symx_assert(clingo_theory_atoms_element_tuple(t, e1, &as, &n) && vec(as, n) == args, "tuple is read back");
    symx_assert(clingo_theory_atoms_element_tuple(t, e2, &as, &n) && n == 1 && as[0] == n1, "tuple is read back");
    std::vector<clingo_id_t> es{e1, e2};
    es.resize(static_cast<size_t>(pick("elements", 3)));
    bool guard = B("guard"), fresh = B("fresh");
    unsigned at = fresh ? UINT32_MAX : symx_uint("atom", 0, 3);
    clingo_atom_t res = 0, res2 = 0;
    bool ok = guard ? clingo_backend_theory_atom_with_guard(b, at, f1, es.data(), es.size(), "<=", s1, &res) : clingo_backend_theory_atom(b, at, f1, es.data(), es.size(), &res);
    symx_assert(ok && res == (fresh ? 101 : at), "atom");
    ok = guard ? clingo_backend_theory_atom_with_guard(b, UINT32_MAX, f1, es.data(), es.size(), "<=", s1, &res2) : clingo_backend_theory_atom(b, UINT32_MAX, f1, es.data(), es.size(), &res2);
    symx_assert(ok, "atom again");
    if (!(at == 0 && !fresh)) symx_assert(res2 == res, "equal atoms are one");
    symx_assert(clingo_theory_atoms_size(t, &n) && n >= 1, "number of atoms");
    clingo_id_t tm = 99, gt = 99;
    bool hg = false;
    symx_assert(clingo_theory_atoms_atom_term(t, 0, &tm) && tm == f1, "term of the atom");
    symx_assert(clingo_theory_atoms_atom_elements(t, 0, &as, &n), "elements of the atom");
    auto got2 = vec(as, n);
    std::sort(got2.begin(), got2.end());
    std::sort(es.begin(), es.end());
    symx_assert(got2 == es, "elements are read back");
    symx_assert(clingo_theory_atoms_atom_has_guard(t, 0, &hg) && hg == guard, "guard is known");
    if (guard) symx_assert(clingo_theory_atoms_atom_guard(t, 0, &s, &gt) && std::string(s) == "<=" && gt == s1, "guard is read back");
    clingo_literal_t al = 0;
    symx_assert(clingo_theory_atoms_atom_literal(t, 0, &al) && static_cast<unsigned>(al) == res, "literal of the atom");
    symx_assert(clingo_theory_atoms_element_condition(t, e1, &ls, &n) && n <= cond.size(), "condition");
    symx_reach("end");
}
// }}}
// {{{ (mode 6) callbacks
static int cbFail;
static int cbCalls;
static bool cbAnswer() {
    ++cbCalls;
    if (!cbFail) return true;
    clingo_set_error(cbFail, "callback");
    return false;
}
static clingo_literal_t deciding;
static std::vector<SymVec> results;
static int resultParts;
// runs something that fails like the callback did
static void forwards(std::function<void()> f, bool mayFail = true) {
    int before = cbCalls;
    bool threw = false;
    try { f(); }
    catch (std::exception const &e) {
        threw = true;
        symx_assert(clingo_error_code() == cbFail && std::string(e.what()) == "callback", "error of the callback");
    }
    symx_assert(cbCalls >= before, "called");
    symx_assert(threw == (mayFail && cbFail != 0), "failing callbacks are noticed");
}
static bool called(clingo_location_t const *l, char const *n, clingo_symbol_t const *as, size_t an, void *d, clingo_symbol_callback_t cb, void *cd) {
    symx_assert(d == mark && std::string(l->begin_file) == "file" && l->begin_line == 3 && l->begin_column == 4 && std::string(l->end_file) == "gile" && l->end_line == 5 && l->end_column == 6, "data and location");
    got("call", n, vec(as, an));
    for (int i = 0; i <= resultParts; ++i) { auto r = reps(results[static_cast<size_t>(i)]); if (!cb(r.data(), r.size(), cd)) return false; }
    return cbAnswer();
}
static void callbacks() {
    Ctl c;
    boom = 0;
    cbCalls = 0;
    int data = 0;
    mark = &data;
    Rec w;
    int k = parts("case", 9);
    cbFail = pick("fail", 5);
    int x = I("x"), y = I("y");
    bool null = false;
    if (k < 5) {
        clingo_propagator_t p = {};
        null = B("null");
        if (!null) {
            p.init = [](clingo_propagate_init_t *i, void *d) { symx_assert(d == mark, "data"); got("init", reinterpret_cast<intptr_t>(i)); return cbAnswer(); };
            p.propagate = [](clingo_propagate_control_t *i, clingo_literal_t const *l, size_t n, void *d) { symx_assert(d == mark, "data"); got("propagate", reinterpret_cast<intptr_t>(i), vec(l, n)); return cbAnswer(); };
            p.undo = [](clingo_propagate_control_t const *i, clingo_literal_t const *l, size_t n, void *d) { symx_assert(d == mark, "data"); got("undo", reinterpret_cast<intptr_t>(i), vec(l, n)); };
            p.check = [](clingo_propagate_control_t *i, void *d) { symx_assert(d == mark, "data"); got("check", reinterpret_cast<intptr_t>(i)); return cbAnswer(); };
            p.decide = [](clingo_id_t t, clingo_assignment_t const *a, clingo_literal_t fb, void *d, clingo_literal_t *r) { symx_assert(d == mark, "data"); got("decide", t, reinterpret_cast<intptr_t>(a), fb); *r = deciding; return cbAnswer(); };
        }
        bool seq = B("sequential");
        symx_assert(outcome(clingo_control_register_propagator(&c, &p, mark, seq), w("registerPropagator", seq)), "propagator is taken");
        got = w = Rec();
        Init in;
        Solver so;
        auto ls = many<int>("l", 2);
        auto sp = Potassco::toSpan(ls);
        auto ps = reinterpret_cast<intptr_t>(static_cast<Potassco::AbstractSolver *>(&so));
        symx_assert(c.prop->hasHeuristic() == !null, "decides");
        switch (k) {
            case 0: forwards([&] { c.prop->init(in); }, !null); w("init", reinterpret_cast<intptr_t>(&in)); break;
            case 1: forwards([&] { c.prop->propagate(so, sp); }, !null); w("propagate", ps, ls); break;
            case 2: forwards([&] { c.prop->undo(so, sp); }, false); w("undo", ps, ls); break;
            case 3: forwards([&] { c.prop->check(so); }, !null); w("check", ps); break;
            default: {
                deciding = y;
                int r = 0;
                unsigned id = U("id");
                forwards([&] { r = c.prop->decide(id, so.as, x); if (!cbFail) symx_assert(r == (null ? 0 : y), "decision"); }, !null);
                w("decide", id, reinterpret_cast<intptr_t>(static_cast<Potassco::AbstractAssignment *>(&so.as)), x);
            }
        }
        if (null) w = Rec();
        symx_assert(got == w, "the callback sees what happens");
    } else if (k == 5) {
        // events of a search
        static bool goon;
        static std::vector<void const *> ptrs;
        static std::vector<int64_t> costs;
        goon = B("goon");
        clingo_solve_handle_t *h = nullptr;
        auto cb = [](clingo_solve_event_type_t t, void *e, void *d, bool *g) {
            symx_assert(d == mark, "data");
            got("event", t);
            if (t == clingo_solve_event_type_model) got.put(reinterpret_cast<intptr_t>(e));
            if (t == clingo_solve_event_type_finish) got.put(*static_cast<clingo_solve_result_bitset_t *>(e));
            if (t == clingo_solve_event_type_statistics) { auto **s = static_cast<clingo_statistics_t **>(e); got.put(reinterpret_cast<intptr_t>(s[0])); got.put(reinterpret_cast<intptr_t>(s[1])); }
            *g = goon;
            return cbAnswer();
        };
        symx_assert(clingo_control_solve(&c, 0, nullptr, 0, cb, mark, &h), "solve");
        got = Rec();
        bool r = false;
        forwards([&] { r = c.handler->on_model(c.model); if (!cbFail) symx_assert(r == goon, "going on"); });
        symx_assert(got == w("event", clingo_solve_event_type_model, reinterpret_cast<intptr_t>(static_cast<Model *>(&c.model))), "model");
        got = w = Rec();
        cbFail = 0;
        unsigned res = static_cast<unsigned>(pick("res", 16));
        Stats a, b;
        bool st = B("statistics");
        c.handler->on_finish(SolveResult(res), st ? &a : nullptr, st ? &b : nullptr);
        if (st) w("event", clingo_solve_event_type_statistics, reinterpret_cast<intptr_t>(static_cast<Potassco::AbstractStatistics *>(&a)), reinterpret_cast<intptr_t>(static_cast<Potassco::AbstractStatistics *>(&b)));
        w("event", clingo_solve_event_type_finish, res);
        symx_assert(got == w, "end of the search");
        clingo_solve_handle_close(h);
    } else if (k == 6 || k == 7) {
        // functions called while grounding: case 6 through the ground callback, case 7 through a script
        auto a = syms("a", 2);
        results = {syms("r", 2), syms("q", 1)};
        resultParts = pick("again", 2);
        Location loc("file", 3, 4, "gile", 5, 6);
        auto use = [&](std::function<SymVec(char const *, SymSpan)> f) {
            for (int i = 0; i < 2; ++i) {
                SymVec r;
                r = f(i ? "g" : "f", Potassco::toSpan(a));
                SymVec e = results[0];
                if (resultParts) e.insert(e.end(), results[1].begin(), results[1].end());
                symx_assert(r == e, "values of the function");
            }
        };
        w("call", "f", a);
        if (!cbFail) w("call", "g", a);
        if (k == 6) {
            c.onGround = [&](Context *z) {
                symx_assert(z && z->callable("f"), "callable");
                got = Rec();
                use([&](char const *n, SymSpan s) { return z->call(loc, n, s, c.lg); });
            };
            bool ok = clingo_control_ground(&c, nullptr, 0, called, mark);
            w("");
            if (cbFail) { symx_assert(!ok && clingo_error_code() == cbFail && std::string(clingo_error_message()) == "callback", "error of the callback"); w.names = "call "; }
            else symx_assert(ok, "success is reported");
            symx_assert(got == w, "the callback sees the call");
        } else {
            static int freed;
            static bool has;
            has = B("has");
            freed = 0;
            clingo_script_t s = {};
            s.call = [](clingo_location_t const *l, char const *n, clingo_symbol_t const *as, size_t an, clingo_symbol_callback_t cb, void *cd, void *d) { return called(l, n, as, an, d, cb, cd); };
            s.callable = [](char const *n, bool *r, void *) { got("callable", n); *r = has; return true; };
            s.execute = [](clingo_location_t const *l, char const *code, void *d) { symx_assert(d == mark && l->begin_line == 3, "data and location"); got("execute", code); return cbAnswer(); };
            s.main = [](clingo_control_t *z, void *) { got("main", reinterpret_cast<intptr_t>(z)); return cbAnswer(); };
            s.free = [](void *) { ++freed; };
            s.version = "1.2";
            symx_assert(clingo_register_script("my", &s, mark), "script is taken");
            symx_assert(std::string(clingo_script_version("my")) == "1.2" && clingo_script_version("other") == nullptr, "version");
            auto &sc = g_scripts();
            Rec e;
            // a script only answers once code of it has been run
            bool run = B("run");
            if (run) { forwards([&] { sc.exec("my", loc, "code"); }); symx_assert(got == e("execute", "code"), "code is run"); }
            got = e = Rec();
            if (!cbFail) {
                bool cal = sc.callable("f");
                symx_assert(cal == (run && has), "callable");
                if (cal) {
                    got = Rec();
                    symx_assert(got == e, "nothing else is called");
                    use([&](char const *n, SymSpan z) { got.names = got.names; return sc.call(loc, n, z, c.lg); });
                }
            }
        }
    } else {
        // parsing of terms and messages
        static int msgs;
        msgs = 0;
        clingo_symbol_t r = 4711;
        std::string s;
        int n = 1 + pick("len", 4);
        static const char al[] = "a1(,)-\"+/";
        for (int i = 0; i < n; ++i) s += al[pick(("c" + std::to_string(i)).c_str(), 9)];
        unsigned lim = static_cast<unsigned>(pick("limit", 3));
        bool ok = clingo_parse_term(s.c_str(), [](clingo_warning_t, char const *m, void *d) { symx_assert(d == mark && *m, "message"); ++msgs; }, mark, lim, &r);
        if (ok) { Input::GroundTermParser p; int e = 0; Logger lg([&](Warnings, char const *) { ++e; }, 20); Symbol q = p.parse(s, lg); symx_assert(q.rep() == r, "term is read"); }
        else { symx_assert(clingo_error_code() == clingo_error_runtime && *clingo_error_message(), "bad terms are reported"); symx_assert(r == 4711, "nothing is written"); }
        symx_assert(static_cast<unsigned>(msgs) <= lim + 1, "messages up to the limit");
    }
    symx_reach("end");
}
// }}}
int main() {
    switch ((int)symx_param("mode", 0)) {
        case 0: statements(); break;
        case 1: control(); break;
        case 2: models(); break;
        case 3: propagation(); break;
        case 4: tables(); break;
        case 5: theory(); break;
        default: callbacks();
    }
}
