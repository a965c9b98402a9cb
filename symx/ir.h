// Pre-decoded form of LLVM IR, free of LLVM headers.
#pragma once
#include "expr.h"
#include <map>
namespace symx {
struct Value { u64 c; E e; };
inline Value V(u64 c) { return Value{c, nullptr}; }
inline Value VE(E e) { if (e->isConst() && e->w <= 64) return Value{(u64)e->c, nullptr}; return Value{0, e}; }

enum Op : u8 {
    O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_FPCONV, O_COPY, O_PTRTOINT, O_INTTOPTR,
    O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_SELECT, O_BR, O_CONDBR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_INVOKE,
    O_LANDINGPAD, O_RESUME, O_CMPXCHG, O_RMW, O_UNSUPPORTED, O_INSERTELT, O_EXTRACTELT, O_FREEZE, O_NOP, O_ADDCARRY
};
// operand: >=0 register, <0 constant index (~x)
typedef int Ref;
struct Func;
struct Type { // leaf layout of a first-class type
    struct Leaf { unsigned off; unsigned w; bool fp; };
    std::vector<Leaf> leaves;
    unsigned size; // store size in bytes
};
struct Inst {
    Op op;
    u8 sub = 0;             // binary kind / predicate / fp op / rmw op
    unsigned w = 0, w2 = 0; // operand width, result width
    int dst = -1;           // first destination slot
    int n = 1;              // number of slots (vector/aggregate)
    std::vector<Ref> ops;   // operands (flattened)
    std::vector<i64> imm;   // immediates
    int bb1 = -1, bb2 = -1; // successors (condbr/invoke), edges
    int e1 = -1, e2 = -1;   // edge indices (phi copies)
    const Type *ty = nullptr;
    Func *callee = nullptr; // direct
    int ext = -1;           // intrinsic / external id
    std::vector<int> argSlots; // number of slots per argument
    std::vector<unsigned> byval; // per-arg byval size (0: no)
    std::vector<std::pair<u128, int>> cases; // switch: value -> edge index
    std::vector<int> caseBB;
    std::string txt;        // for unsupported
    u32 line = 0; const char *file = nullptr;
};
struct Edge { int bb; std::vector<std::pair<int, Ref>> copies; };
struct Block { int first; };
struct Func {
    std::string name, demangled;
    bool decl = true;
    bool ret0 = false;      // stub: returns zero
    int ext = -1;
    u64 addr = 0;
    int nregs = 0;
    std::vector<int> params; // slot index of each parameter slot (flattened, in order)
    int nret = 0;
    bool vararg = false;
    std::vector<Inst> insts;
    std::vector<Block> blocks;
    std::vector<Edge> edges;
    std::vector<Value> consts;
    void *llvm = nullptr;
    bool decoded = false;
    u64 calls = 0;
    bool repo = false;       // defined in /repo sources (by debug info / file)
};
struct Global {
    std::string name;
    u64 addr = 0, size = 0;
    bool constant = false, external = false;
    std::vector<u8> init;
};
struct TypeInfo { std::string name; std::vector<std::pair<u64, i64>> bases; };

struct Program {
    std::vector<Func *> funcs;
    std::map<std::string, Func *> byName;
    std::unordered_map<u64, Func *> byAddr;
    std::vector<Global> globals;
    std::unordered_map<u64, TypeInfo> types; // by address of type_info global
    std::vector<Func *> ctors;
    u64 vmiVt = 0;
};
const u64 SLOT_SHIFT = 20;
const u64 GLOBAL_BASE_SLOT = 16;
struct LoadOptions {
    std::vector<std::string> files;
    std::vector<std::string> zeroFuncs; // substrings of demangled names returning 0
    std::string repoDir;
};
bool loadProgram(LoadOptions const &opt, Program &prog, std::string &err);
void decodeFunc(Program &prog, Func *f); // lazily
extern std::vector<std::string> g_extNames; // external id -> name
int extId(std::string const &name);
} // namespace symx
