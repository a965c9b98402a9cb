// Drives the real parser, rewriter, grounder and output of /repo; records the ground program.
#pragma once
#include <symx.h>
#include <gringo/backend.hh>
#include <gringo/ground/program.hh>
#include <gringo/input/nongroundparser.hh>
#include <gringo/input/program.hh>
#include <gringo/input/programbuilder.hh>
#include <gringo/logger.hh>
#include <gringo/output/output.hh>
#include <gringo/utility.hh>
#include <potassco/theory_data.h>
#include <algorithm>
#include <map>
#include <sstream>
#include <vector>
namespace H {
using namespace Gringo;
using Potassco::Atom_t; using Potassco::Lit_t; using Potassco::Weight_t; using Potassco::Id_t;
typedef std::vector<Lit_t> Lits;
typedef std::vector<std::pair<Lit_t, int>> WLits;
struct RRule { bool choice; std::vector<Atom_t> head; bool weighted; int bound; WLits body; };
struct RMin { int prio; WLits body; };
struct ROut { Symbol sym; bool cond; Lits body; Atom_t atom; };
struct RExt { Atom_t atom; int val; };
struct REdge { int u, v; Lits body; };
struct RHeu { Atom_t atom; int type; int bias; unsigned prio; Lits body; };
struct RTheoryTerm { int kind; int num; std::string name; int cid; std::vector<Id_t> args; };
struct RTheoryElem { std::vector<Id_t> terms; Lits cond; };
struct RTheoryAtom { Id_t atom; Id_t term; std::vector<Id_t> elems; bool guard; Id_t op, rhs; };
struct Recorded {
    std::vector<RRule> rules; std::vector<RMin> mins; std::vector<ROut> outs; std::vector<RExt> exts; std::vector<REdge> edges; std::vector<RHeu> heus;
    std::vector<Atom_t> project; bool projected = false; Lits assume;
    std::map<Id_t, RTheoryTerm> tterms; std::map<Id_t, RTheoryElem> telems; std::vector<RTheoryAtom> tatoms;
    int init = 0, begin = 0, end = 0;
};
class Recorder : public Backend {
  public:
    Recorder(Recorded &r) : r(r) {}
    void initProgram(bool) override { ++r.init; }
    void beginStep() override { ++r.begin; }
    static Lits lits(LitSpan const &s) { return Lits(Potassco::begin(s), Potassco::end(s)); }
    static WLits wlits(WeightLitSpan const &s) { WLits w; for (auto &x : s) w.emplace_back(x.lit, x.weight); return w; }
    void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) override {
        RRule x{ht == Head_t::Choice, std::vector<Atom_t>(Potassco::begin(head), Potassco::end(head)), false, 0, {}};
        for (auto &l : body) x.body.emplace_back(l, 1);
        r.rules.push_back(std::move(x));
    }
    void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) override {
        r.rules.push_back(RRule{ht == Head_t::Choice, std::vector<Atom_t>(Potassco::begin(head), Potassco::end(head)), true, bound, wlits(body)});
    }
    void minimize(Weight_t prio, WeightLitSpan const &l) override { r.mins.push_back({prio, wlits(l)}); }
    void project(AtomSpan const &atoms) override { r.projected = true; r.project.insert(r.project.end(), Potassco::begin(atoms), Potassco::end(atoms)); }
    void output(Symbol sym, Atom_t atom) override { r.outs.push_back({sym, false, {}, atom}); }
    void output(Symbol sym, LitSpan const &c) override { r.outs.push_back({sym, true, lits(c), 0}); }
    void external(Atom_t a, Value_t v) override { r.exts.push_back({a, static_cast<int>(v)}); }
    void assume(LitSpan const &l) override { r.assume = lits(l); }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &c) override { r.heus.push_back({a, static_cast<int>(t), bias, prio, lits(c)}); }
    void acycEdge(int s, int t, LitSpan const &c) override { r.edges.push_back({s, t, lits(c)}); }
    void theoryTerm(Id_t id, int number) override { r.tterms[id] = {0, number, "", 0, {}}; }
    void theoryTerm(Id_t id, StringSpan const &name) override { r.tterms[id] = {1, 0, std::string(name.first, name.size), 0, {}}; }
    void theoryTerm(Id_t id, int cId, IdSpan const &args) override { r.tterms[id] = {2, 0, "", cId, std::vector<Id_t>(Potassco::begin(args), Potassco::end(args))}; }
    void theoryElement(Id_t id, IdSpan const &terms, LitSpan const &cond) override { r.telems[id] = {std::vector<Id_t>(Potassco::begin(terms), Potassco::end(terms)), lits(cond)}; }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &e) override { r.tatoms.push_back({a, t, std::vector<Id_t>(Potassco::begin(e), Potassco::end(e)), false, 0, 0}); }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &e, Id_t op, Id_t rhs) override { r.tatoms.push_back({a, t, std::vector<Id_t>(Potassco::begin(e), Potassco::end(e)), true, op, rhs}); }
    void endStep() override { ++r.end; }
    Recorded &r;
};
// external functions: none unless overridden
struct Ctx : Context {
    std::function<SymVec(std::string const &, SymSpan)> fun;
    bool callable(String) override { return static_cast<bool>(fun); }
    SymVec call(Location const &, String name, SymSpan args, Logger &) override { return fun ? fun(name.c_str(), args) : SymVec(); }
    void exec(String, Location, String) override {}
};
struct Msgs { int count[8] = {}; std::string last, all; };
struct Session {
    Msgs msgs;
    Logger log;
    Recorded rec;
    std::ostringstream text;
    Potassco::TheoryData td;
    Input::Program prg;
    Defines defs;
    NullBackend nbck;
    Ctx ctx;
    std::unique_ptr<Output::OutputBase> out;
    std::unique_ptr<Input::NongroundProgramBuilder> pb;
    bool incmode = false;
    std::unique_ptr<Input::NonGroundParser> parser;
    bool inited = false;
    Session(bool textMode = false, Output::OutputOptions opts = Output::OutputOptions())
    : log([this](Warnings c, char const *m) { ++msgs.count[static_cast<int>(c)]; msgs.last = m; msgs.all += m; }, 1000) {
        if (textMode) out.reset(new Output::OutputBase(td, {}, text, Output::OutputFormat::TEXT, opts));
        else out.reset(new Output::OutputBase(td, {}, UBackend(new Recorder(rec)), opts));
        pb.reset(new Input::NongroundProgramBuilder(ctx, prg, out->outPreds, defs));
        parser.reset(new Input::NonGroundParser(*pb, nbck, incmode));
    }
    bool parse(std::string const &s) {
        parser->pushStream("<string>", gringo_make_unique<std::stringstream>(s), log);
        parser->parse(log);
        return !log.hasError();
    }
    void define(char const *name, Symbol v) {
        Location l("<cmd>", 1, 1, "<cmd>", 1, 1);
        defs.add(l, name, make_locatable<ValTerm>(l, v), false, log);
    }
    bool prepare() {
        defs.init(log);
        if (log.hasError()) return false;
        prg.rewrite(defs, log);
        prg.check(log);
        return !log.hasError();
    }
    void begin(bool incremental = false) {
        if (!inited) { out->init(incremental); inited = true; }
        out->beginStep();
    }
    void groundParts(std::vector<std::pair<std::string, SymVec>> const &parts) {
        Ground::Parameters params;
        std::set<Sig> sigs;
        for (auto &p : parts) { params.add(p.first.c_str(), SymVec(p.second)); sigs.emplace(p.first.c_str(), numeric_cast<uint32_t>(p.second.size()), false); }
        Ground::Program g(prg.toGround(sigs, out->data, log));
        g.prepare(params, *out, log);
        g.ground(ctx, *out, log);
    }
    void end() { out->endGround(log); out->endStep({nullptr, 0}); }
    // the whole pipeline with program part base(params)
    bool run(std::string const &s, SymVec const &params = {}, char const *part = "base") {
        if (!parse(s) || !prepare()) return false;
        begin();
        groundParts({{part, params}});
        end();
        return true;
    }
};
inline Symbol num(int x) { return Symbol::createNum(x); }
inline std::string str(Symbol s) { std::ostringstream o; s.print(o); return o.str(); }
inline Symbol id(char const *n) { return Symbol::createId(n); }
inline Symbol fun(char const *n, SymVec const &a) { return Symbol::createFun(n, Potassco::toSpan(a)); }
} // namespace H
