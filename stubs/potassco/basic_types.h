// Stand-in for libpotassco's basic types (the submodule is not available offline).
// Written from the documented public API of libpotassco; trusted by the checks.
#ifndef VERIF_POTASSCO_BASIC_TYPES_H
#define VERIF_POTASSCO_BASIC_TYPES_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <stdexcept>
#include <utility>
#include <vector>
#include <string>
#include <functional>
#include <memory>
#include <algorithm>
#include <cassert>
namespace Potassco {
typedef uint32_t Id_t;
typedef uint32_t Atom_t;
typedef int32_t Lit_t;
typedef int32_t Weight_t;
struct WeightLit_t {
    Lit_t lit;
    Weight_t weight;
};
const Atom_t atomMin = 1, atomMax = (1u << 31) - 1;
inline bool operator==(WeightLit_t const &a, WeightLit_t const &b) { return a.lit == b.lit && a.weight == b.weight; }
inline bool operator!=(WeightLit_t const &a, WeightLit_t const &b) { return !(a == b); }
inline bool operator<(WeightLit_t const &a, WeightLit_t const &b) {
    return a.lit != b.lit ? a.lit < b.lit : a.weight < b.weight;
}
inline Atom_t atom(Lit_t lit) { return static_cast<Atom_t>(lit >= 0 ? lit : -lit); }
inline Atom_t atom(WeightLit_t const &w) { return atom(w.lit); }
inline Lit_t lit(Lit_t l) { return l; }
inline Lit_t lit(Atom_t a) { return static_cast<Lit_t>(a); }
inline Lit_t lit(WeightLit_t const &w) { return w.lit; }
inline Lit_t neg(Atom_t a) { return -static_cast<Lit_t>(a); }
inline Lit_t neg(Lit_t l) { return -l; }
inline Weight_t weight(Atom_t) { return 1; }
inline Weight_t weight(Lit_t) { return 1; }
inline Weight_t weight(WeightLit_t const &w) { return w.weight; }
template <class T> struct Span {
    typedef const T *iterator;
    typedef const T *const_iterator;
    typedef T value_type;
    typedef std::size_t size_t_;
    const T &operator[](std::size_t p) const { return first[p]; }
    const T *first;
    std::size_t size;
};
template <class T> inline Span<T> toSpan(const T *x, std::size_t s) { Span<T> r = {x, s}; return r; }
template <class T> inline Span<T> toSpan() { return toSpan<T>(nullptr, 0); }
template <class C> inline Span<typename C::value_type> toSpan(const C &c) {
    return !c.empty() ? toSpan(&c[0], c.size()) : toSpan<typename C::value_type>(nullptr, 0);
}
typedef Span<Id_t> IdSpan;
typedef Span<Atom_t> AtomSpan;
typedef Span<Lit_t> LitSpan;
typedef Span<WeightLit_t> WeightLitSpan;
typedef Span<char> StringSpan;
inline StringSpan toSpan(const char *x) { return toSpan(x, std::strlen(x)); }
template <class T> inline const T *begin(const Span<T> &s) { return s.first; }
template <class T> inline const T *end(const Span<T> &s) { return s.first + s.size; }
template <class T> inline std::size_t size(const Span<T> &s) { return s.size; }
template <class T> inline bool empty(const Span<T> &s) { return s.size == 0; }
inline bool operator==(StringSpan const &a, StringSpan const &b) {
    return a.size == b.size && std::memcmp(a.first, b.first, a.size) == 0;
}
#define VERIF_ENUM(Name, Def, ...)                                                                                    \
    struct Name {                                                                                                     \
        enum E { __VA_ARGS__ };                                                                                       \
        E val_;                                                                                                       \
        Name(E x = Def) : val_(x) {}                                                                                  \
        explicit Name(unsigned x) : val_(static_cast<E>(x)) {}                                                        \
        explicit Name(int x) : val_(static_cast<E>(x)) {}                                                             \
        operator int() const { return static_cast<int>(val_); }                                             \
    };
VERIF_ENUM(Head_t, Disjunctive, Disjunctive = 0, Choice = 1)
VERIF_ENUM(Body_t, Normal, Normal = 0, Sum = 1, Count = 2)
VERIF_ENUM(Value_t, Free, Free = 0, True = 1, False = 2, Release = 3)
VERIF_ENUM(Heuristic_t, Level, Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5)
VERIF_ENUM(Directive_t, End, End = 0, Rule = 1, Minimize = 2, Project = 3, Output = 4, External = 5, Assume = 6,
           Heuristic = 7, Edge = 8, Theory = 9, Comment = 10)
inline const char *toString(Heuristic_t t) {
    switch (t.val_) {
        case Heuristic_t::Level: return "level";
        case Heuristic_t::Sign: return "sign";
        case Heuristic_t::Factor: return "factor";
        case Heuristic_t::Init: return "init";
        case Heuristic_t::True: return "true";
        case Heuristic_t::False: return "false";
    }
    return "";
}
class AbstractProgram {
  public:
    virtual ~AbstractProgram() {}
    virtual void initProgram(bool) {}
    virtual void beginStep() {}
    virtual void rule(Head_t, const AtomSpan &, const LitSpan &) = 0;
    virtual void rule(Head_t, const AtomSpan &, Weight_t, const WeightLitSpan &) = 0;
    virtual void minimize(Weight_t, const WeightLitSpan &) = 0;
    virtual void project(const AtomSpan &) { throw std::logic_error("projection directive not supported"); }
    virtual void output(const StringSpan &, const LitSpan &) {
        throw std::logic_error("output directive not supported");
    }
    virtual void external(Atom_t, Value_t) { throw std::logic_error("external directive not supported"); }
    virtual void assume(const LitSpan &) { throw std::logic_error("assumption directive not supported"); }
    virtual void heuristic(Atom_t, Heuristic_t, int, unsigned, const LitSpan &) {
        throw std::logic_error("heuristic directive not supported");
    }
    virtual void acycEdge(int, int, const LitSpan &) { throw std::logic_error("edge directive not supported"); }
    virtual void theoryTerm(Id_t, int) { throw std::logic_error("theory data not supported"); }
    virtual void theoryTerm(Id_t, const StringSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryTerm(Id_t, int, const IdSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryElement(Id_t, const IdSpan &, const LitSpan &) {
        throw std::logic_error("theory data not supported");
    }
    virtual void theoryAtom(Id_t, Id_t, const IdSpan &) { throw std::logic_error("theory data not supported"); }
    virtual void theoryAtom(Id_t, Id_t, const IdSpan &, Id_t, Id_t) {
        throw std::logic_error("theory data not supported");
    }
    virtual void endStep() {}
};
} // namespace Potassco
#endif
