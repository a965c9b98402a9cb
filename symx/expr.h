// Hash-consed bit-vector expressions with simplification, intervals and a Z3 back end.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
namespace symx {
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Kind : u8 {
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_NOT
};

typedef std::vector<u32> VarSet; // sorted

struct Expr {
    Kind k;
    u8 nops;
    unsigned w;          // width in bits (1..512)
    u32 id;
    u32 aux;             // extract: low bit, var: index
    u32 hash;
    const Expr *op[3];
    u128 c;              // constant value
    u64 umin, umax;      // unsigned interval (w <= 64)
    i64 smin, smax;      // signed interval (w <= 64)
    const VarSet *vars;
    bool isConst() const { return k == K_CONST; }
};
typedef const Expr *E;

inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
inline i128 sext128(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }

E mkConst(u128 v, unsigned w);
inline E mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
E mkVar(std::string const &name, unsigned w, i64 lo, i64 hi, bool isSigned, bool ranged);
E mkBin(Kind k, E a, E b);      // arithmetic, bitwise, comparisons
E mkNot(E a);                   // width 1
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_OR, a, b); }
std::string toStr(E e, int depth = 6);

struct VarInfo { std::string name; unsigned w; bool ranged; bool isSigned; i64 lo, hi; };
extern std::vector<VarInfo> g_vars;
u32 numExprs();

struct Model {
    std::vector<u64> v; // by var index (missing: 0 or lower range bound)
    u64 get(u32 i) const;
    void set(u32 i, u64 x);
};
u128 evalExpr(E e, Model const &m);

enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats {
    u64 queries = 0, z3 = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_stats;
extern unsigned g_timeoutMs1, g_timeoutMs2;
// constraints are all assumed satisfiable together; model updated on SAT
Res solve(std::vector<E> const &pc, E cond, Model &model);
bool dumpSmt2(std::vector<E> const &pc, E cond, std::string const &path);
} // namespace symx
