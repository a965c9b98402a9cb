// Stand-in for libpotassco's theory data container.
#ifndef VERIF_POTASSCO_THEORY_DATA_H
#define VERIF_POTASSCO_THEORY_DATA_H
#include <potassco/basic_types.h>
namespace Potassco {
VERIF_ENUM(Tuple_t, Paren, Bracket = -3, Brace = -2, Paren = -1)
VERIF_ENUM(Theory_t, Number, Number = 0, Symbol = 1, Compound = 2, Element = 4, Atom = 5, AtomWithGuard = 6)
inline const char *toString(Tuple_t t) {
    switch (t.val_) {
        case Tuple_t::Bracket: return "[]";
        case Tuple_t::Brace: return "{}";
        case Tuple_t::Paren: return "()";
    }
    return "()";
}
class TheoryTerm {
  public:
    typedef const Id_t *iterator;
    TheoryTerm() : p_() {}
    Theory_t type() const { check_(); return p_->type; }
    int number() const { return p_->number; }
    const char *symbol() const { return p_->name.c_str(); }
    int compound() const { return p_->number; }
    bool isFunction() const { return type() == Theory_t::Compound && p_->number >= 0; }
    Id_t function() const { return static_cast<Id_t>(p_->number); }
    bool isTuple() const { return type() == Theory_t::Compound && p_->number < 0; }
    Tuple_t tuple() const { return static_cast<Tuple_t::E>(p_->number); }
    uint32_t size() const { return static_cast<uint32_t>(p_->args.size()); }
    iterator begin() const { return p_->args.data(); }
    iterator end() const { return p_->args.data() + p_->args.size(); }
    IdSpan terms() const { return Potassco::toSpan(p_->args.data(), p_->args.size()); }
    bool valid() const { return static_cast<bool>(p_); }

  private:
    friend class TheoryData;
    void check_() const { if (!p_) { throw std::logic_error("Invalid term"); } }
    struct Data {
        Theory_t type{Theory_t::Number};
        int number{0};
        std::string name;
        std::vector<Id_t> args;
    };
    std::shared_ptr<Data> p_;
};
class TheoryElement {
  public:
    typedef const Id_t *iterator;
    uint32_t size() const { return static_cast<uint32_t>(terms_.size()); }
    iterator begin() const { return terms_.data(); }
    iterator end() const { return terms_.data() + terms_.size(); }
    IdSpan terms() const { return Potassco::toSpan(terms_.data(), terms_.size()); }
    Id_t condition() const { return cond_; }

  private:
    friend class TheoryData;
    std::vector<Id_t> terms_;
    Id_t cond_{0};
};
class TheoryAtom {
  public:
    typedef const Id_t *iterator;
    Id_t atom() const { return atom_; }
    Id_t term() const { return term_; }
    uint32_t size() const { return static_cast<uint32_t>(elems_.size()); }
    iterator begin() const { return elems_.data(); }
    iterator end() const { return elems_.data() + elems_.size(); }
    IdSpan elements() const { return Potassco::toSpan(elems_.data(), elems_.size()); }
    const Id_t *guard() const { return guarded_ ? &op_ : nullptr; }
    const Id_t *rhs() const { return guarded_ ? &rhs_ : nullptr; }

  private:
    friend class TheoryData;
    Id_t atom_{0}, term_{0}, op_{0}, rhs_{0};
    bool guarded_{false};
    std::vector<Id_t> elems_;
};
class TheoryData {
  public:
    static const Id_t COND_DEFERRED = static_cast<Id_t>(-1);
    typedef const TheoryAtom *const *atom_iterator;
    class Visitor {
      public:
        virtual ~Visitor() {}
        virtual void visit(const TheoryData &data, Id_t termId, const TheoryTerm &t) = 0;
        virtual void visit(const TheoryData &data, Id_t elemId, const TheoryElement &e) = 0;
        virtual void visit(const TheoryData &data, const TheoryAtom &a) = 0;
    };
    enum VisitMode { visit_all, visit_current };
    TheoryData() {}
    TheoryData(TheoryData const &) = delete;
    TheoryData &operator=(TheoryData const &) = delete;
    ~TheoryData() { reset(); }
    void addTerm(Id_t termId, int number) { auto &t = newTerm_(termId); t.type = Theory_t::Number; t.number = number; }
    void addTerm(Id_t termId, const StringSpan &name) {
        auto &t = newTerm_(termId);
        t.type = Theory_t::Symbol;
        t.name.assign(name.first, name.size);
    }
    void addTerm(Id_t termId, const char *name) { addTerm(termId, Potassco::toSpan(name)); }
    void addTerm(Id_t termId, Id_t funcId, const IdSpan &args) { compound_(termId, static_cast<int>(funcId), args); }
    void addTerm(Id_t termId, Tuple_t type, const IdSpan &args) { compound_(termId, static_cast<int>(type.val_), args); }
    const TheoryElement &addElement(Id_t elemId, const IdSpan &terms, Id_t cId = 0u) {
        if (elems_.size() <= elemId) { elems_.resize(elemId + 1); }
        std::unique_ptr<TheoryElement> e(new TheoryElement());
        e->terms_.assign(terms.first, terms.first + terms.size);
        e->cond_ = cId;
        elems_[elemId] = std::move(e);
        return *elems_[elemId];
    }
    const TheoryAtom &addAtom(Id_t atomOrZero, Id_t termId, const IdSpan &elems) {
        TheoryAtom *a = new TheoryAtom();
        a->atom_ = atomOrZero;
        a->term_ = termId;
        a->elems_.assign(elems.first, elems.first + elems.size);
        atoms_.push_back(a);
        return *a;
    }
    const TheoryAtom &addAtom(Id_t atomOrZero, Id_t termId, const IdSpan &elems, Id_t op, Id_t rhs) {
        addAtom(atomOrZero, termId, elems);
        TheoryAtom *a = atoms_.back();
        a->guarded_ = true;
        a->op_ = op;
        a->rhs_ = rhs;
        return *a;
    }
    void setCondition(Id_t elementId, Id_t newCond) {
        if (getElement(elementId).condition() != COND_DEFERRED) { throw std::logic_error("setCondition"); }
        elems_[elementId]->cond_ = newCond;
    }
    void removeTerm(Id_t termId) { if (hasTerm(termId)) { terms_[termId] = TheoryTerm(); } }
    void reset() {
        for (auto *a : atoms_) { delete a; }
        atoms_.clear();
        terms_.clear();
        elems_.clear();
        upd_ = 0;
    }
    void update() { upd_ = atoms_.size(); }
    bool empty() const { return atoms_.empty(); }
    uint32_t numAtoms() const { return static_cast<uint32_t>(atoms_.size()); }
    atom_iterator begin() const { return atoms_.data(); }
    atom_iterator currBegin() const { return begin() + upd_; }
    atom_iterator end() const { return begin() + numAtoms(); }
    bool hasTerm(Id_t t) const { return t < terms_.size() && terms_[t].valid(); }
    bool isNewTerm(Id_t t) const { return hasTerm(t); }
    bool hasElement(Id_t e) const { return e < elems_.size() && elems_[e]; }
    bool isNewElement(Id_t e) const { return hasElement(e); }
    TheoryTerm getTerm(Id_t t) const {
        if (!hasTerm(t)) { throw std::logic_error("Unknown term"); }
        return terms_[t];
    }
    const TheoryElement &getElement(Id_t e) const {
        if (!hasElement(e)) { throw std::logic_error("Unknown element"); }
        return *elems_[e];
    }
    void accept(Visitor &out, VisitMode m = visit_all) const {
        for (auto it = m == visit_current ? currBegin() : begin(); it != end(); ++it) { out.visit(*this, **it); }
    }
    void accept(const TheoryTerm &t, Visitor &out, VisitMode m = visit_all) const {
        if (t.type() == Theory_t::Compound) {
            for (auto x : t) { if (doVisitTerm_(m, x)) { out.visit(*this, x, getTerm(x)); } }
            if (t.isFunction()) { out.visit(*this, t.function(), getTerm(t.function())); }
        }
    }
    void accept(const TheoryElement &e, Visitor &out, VisitMode m = visit_all) const {
        for (auto x : e) { if (doVisitTerm_(m, x)) { out.visit(*this, x, getTerm(x)); } }
    }
    void accept(const TheoryAtom &a, Visitor &out, VisitMode m = visit_all) const {
        if (doVisitTerm_(m, a.term())) { out.visit(*this, a.term(), getTerm(a.term())); }
        for (auto x : a) { if (m == visit_all || isNewElement(x)) { out.visit(*this, x, getElement(x)); } }
        if (a.guard()) { out.visit(*this, *a.guard(), getTerm(*a.guard())); }
        if (a.rhs()) { out.visit(*this, *a.rhs(), getTerm(*a.rhs())); }
    }
    template <class F> void filter(const F &f) {
        std::vector<TheoryAtom *> keep(atoms_.begin(), atoms_.begin() + upd_);
        for (auto it = atoms_.begin() + upd_; it != atoms_.end(); ++it) {
            if ((*it)->atom() && f(**it)) { delete *it; } else { keep.push_back(*it); }
        }
        atoms_.swap(keep);
    }

  private:
    bool doVisitTerm_(VisitMode m, Id_t id) const { return m == visit_all || isNewTerm(id); }
    void compound_(Id_t termId, int c, const IdSpan &args) {
        auto &t = newTerm_(termId);
        t.type = Theory_t::Compound;
        t.number = c;
        t.args.assign(args.first, args.first + args.size);
    }
    TheoryTerm::Data &newTerm_(Id_t id) {
        if (terms_.size() <= id) { terms_.resize(id + 1); }
        if (terms_[id].valid()) { throw std::logic_error("Redefinition of theory term"); }
        terms_[id].p_ = std::make_shared<TheoryTerm::Data>();
        return *terms_[id].p_;
    }
    std::vector<TheoryTerm> terms_;
    std::vector<std::unique_ptr<TheoryElement>> elems_;
    std::vector<TheoryAtom *> atoms_;
    std::size_t upd_{0};
};
} // namespace Potassco
#endif
