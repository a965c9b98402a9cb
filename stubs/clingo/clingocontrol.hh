// Stand-in for clingo's control on top of clasp (whose sources are not here): only what the C interface names.
#ifndef VERIF_CLINGO_CLINGOCONTROL_HH
#define VERIF_CLINGO_CLINGOCONTROL_HH
#include "clingo.h"
#include <clingo/astv2.hh>
#include <clingo/control.hh>
#include <clingo/scripts.hh>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <gringo/input/groundtermparser.hh>
#include <gringo/input/nongroundparser.hh>
#include <gringo/input/program.hh>
#include <gringo/input/programbuilder.hh>
#include <gringo/logger.hh>
#include <gringo/output/output.hh>
#include <iostream>
#include <memory>
#include <mutex>
#include <potassco/basic_types.h>
namespace Gringo {
typedef clingo_control ClingoControl;
class ClingoApp;
class IClingoApp {
  public:
    virtual unsigned message_limit() const { return 20; }
    virtual char const *program_name() const { return "clingo"; }
    virtual char const *version() const { return clingo_version_string(); }
    virtual bool has_main() const { return false; }
    virtual void main(ClingoControl &, std::vector<std::string> const &) { throw std::runtime_error("not implemented"); }
    virtual bool has_log() const { return false; }
    virtual void log(Gringo::Warnings, char const *) noexcept {}
    virtual bool has_printer() const { return false; }
    virtual void print_model(Model *, std::function<void()>) {}
    virtual void register_options(ClingoApp &) {}
    virtual void validate_options() {}
    virtual ~IClingoApp() {}
};
typedef std::unique_ptr<IClingoApp> UIClingoApp;
// a control that does nothing; harnesses override what they use
struct StandInControl : clingo_control {
    [[noreturn]] static void no() { throw std::logic_error("not in the stand-in"); }
    ConfigProxy &getConf() override { no(); }
    SymbolicAtoms const &getDomain() const override { no(); }
    void ground(GroundVec const &, Context *) override { no(); }
    USolveFuture solve(Assumptions, clingo_solve_mode_bitset_t, USolveEventHandler) override { no(); }
    void interrupt() override { no(); }
    void *claspFacade() override { return nullptr; }
    void add(std::string const &, Gringo::StringVec const &, std::string const &) override { no(); }
    void load(std::string const &) override { no(); }
    void load_aspif(Potassco::Span<char const *>) override { no(); }
    Symbol getConst(std::string const &) const override { no(); }
    bool blocked() override { return false; }
    void assignExternal(Potassco::Atom_t, Potassco::Value_t) override { no(); }
    void assignExternal(Symbol, Potassco::Value_t) override { no(); }
    void updateProject(Potassco::AtomSpan, bool) override { no(); }
    void removeMinimize() override { no(); }
    bool isConflicting() const noexcept override { return false; }
    Potassco::AbstractStatistics const *statistics() const override { no(); }
    void useEnumAssumption(bool) override { no(); }
    bool useEnumAssumption() const override { no(); }
    void cleanup() override { no(); }
    void enableCleanup(bool) override { no(); }
    bool enableCleanup() const override { no(); }
    Output::DomainData const &theory() const override { no(); }
    void registerPropagator(UProp, bool) override { no(); }
    void registerObserver(UBackend, bool) override { no(); }
    Potassco::Atom_t addProgramAtom() override { no(); }
    bool beginAddBackend() override { no(); }
    Output::TheoryData &theoryData() override { no(); }
    Id_t addAtom(Symbol) override { no(); }
    void addFact(Potassco::Atom_t) override { no(); }
    Backend *getBackend() override { no(); }
    Backend &getASPIFBackend() override { no(); }
    void endAddBackend() override { no(); }
    Logger &logger() override { no(); }
    void beginAdd() override { no(); }
    void add(clingo_ast_t const &) override { no(); }
    void endAdd() override { no(); }
};
struct ClingoLib : StandInControl {
    ClingoLib(Scripts &, int, char const *const *, Logger::Printer, unsigned) {}
};
} // namespace Gringo
#endif
