// Stand-in for libpotassco's aspif writer (and a stub of the reader).
#ifndef VERIF_POTASSCO_ASPIF_H
#define VERIF_POTASSCO_ASPIF_H
#include <potassco/theory_data.h>
#include <ostream>
#include <istream>
namespace Potassco {
class AspifOutput : public AbstractProgram {
  public:
    AspifOutput(std::ostream &os) : os_(os) {}
    void initProgram(bool inc) override { os_ << "asp 1 0 0" << (inc ? " incremental" : "") << "\n"; }
    void beginStep() override {}
    void rule(Head_t ht, const AtomSpan &head, const LitSpan &body) override {
        start(1); add(static_cast<int>(unsigned(ht))); span(head); add(0); span(body); end();
    }
    void rule(Head_t ht, const AtomSpan &head, Weight_t bound, const WeightLitSpan &body) override {
        start(1); add(static_cast<int>(unsigned(ht))); span(head); add(1); add(bound); span(body); end();
    }
    void minimize(Weight_t prio, const WeightLitSpan &lits) override { start(2); add(prio); span(lits); end(); }
    void project(const AtomSpan &atoms) override { start(3); span(atoms); end(); }
    void output(const StringSpan &str, const LitSpan &cond) override { start(4); string(str); span(cond); end(); }
    void external(Atom_t a, Value_t v) override { start(5); add(a); add(unsigned(v)); end(); }
    void assume(const LitSpan &lits) override { start(6); span(lits); end(); }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, const LitSpan &cond) override {
        start(7); add(unsigned(t)); add(a); add(bias); add(prio); span(cond); end();
    }
    void acycEdge(int s, int t, const LitSpan &cond) override { start(8); add(s); add(t); span(cond); end(); }
    void theoryTerm(Id_t id, int number) override { start(9); add(0); add(id); add(number); end(); }
    void theoryTerm(Id_t id, const StringSpan &name) override { start(9); add(1); add(id); string(name); end(); }
    void theoryTerm(Id_t id, int cId, const IdSpan &args) override { start(9); add(2); add(id); add(cId); span(args); end(); }
    void theoryElement(Id_t id, const IdSpan &terms, const LitSpan &cond) override {
        start(9); add(4); add(id); span(terms); span(cond); end();
    }
    void theoryAtom(Id_t a, Id_t termId, const IdSpan &elems) override { start(9); add(5); add(a); add(termId); span(elems); end(); }
    void theoryAtom(Id_t a, Id_t termId, const IdSpan &elems, Id_t op, Id_t rhs) override {
        start(9); add(6); add(a); add(termId); span(elems); add(op); add(rhs); end();
    }
    void endStep() override { os_ << 0 << "\n"; }

  private:
    void start(int t) { os_ << t; }
    template <class T> void add(T x) { os_ << " " << x; }
    template <class T> void span(Span<T> const &s) {
        os_ << " " << s.size;
        for (std::size_t i = 0; i != s.size; ++i) { elem(s.first[i]); }
    }
    template <class T> void elem(T const &x) { os_ << " " << x; }
    void elem(WeightLit_t const &x) { os_ << " " << x.lit << " " << x.weight; }
    void string(StringSpan const &s) {
        os_ << " " << s.size << " ";
        os_.write(s.first, static_cast<std::streamsize>(s.size));
    }
    void end() { os_ << "\n"; }
    std::ostream &os_;
};
inline int readAspif(std::istream &, AbstractProgram &) { throw std::logic_error("aspif reader not available"); }
} // namespace Potassco
#endif
