// Stand-in: the smodels writer is not modelled.
#ifndef VERIF_POTASSCO_SMODELS_H
#define VERIF_POTASSCO_SMODELS_H
#include <potassco/basic_types.h>
#include <ostream>
namespace Potassco {
class SmodelsOutput : public AbstractProgram {
  public:
    SmodelsOutput(std::ostream &, bool, Atom_t) {}
    void rule(Head_t, const AtomSpan &, const LitSpan &) override {}
    void rule(Head_t, const AtomSpan &, Weight_t, const WeightLitSpan &) override {}
    void minimize(Weight_t, const WeightLitSpan &) override {}
};
class SmodelsConvert : public AbstractProgram {
  public:
    SmodelsConvert(AbstractProgram &out, bool) : out_(out) {}
    void rule(Head_t t, const AtomSpan &h, const LitSpan &b) override { out_.rule(t, h, b); }
    void rule(Head_t t, const AtomSpan &h, Weight_t w, const WeightLitSpan &b) override { out_.rule(t, h, w, b); }
    void minimize(Weight_t p, const WeightLitSpan &l) override { out_.minimize(p, l); }
  private:
    AbstractProgram &out_;
};
} // namespace Potassco
#endif
