// LLVM bitcode -> pre-decoded program.
#include "ir.h"
#include <llvm/ADT/StringExtras.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Passes/PassBuilder.h>
using namespace llvm;
namespace symx {
std::vector<std::string> g_extNames;
static std::map<std::string, int> g_extMap;
int extId(std::string const &n) {
    auto r = g_extMap.insert({n, (int)g_extNames.size()});
    if (r.second) g_extNames.push_back(n);
    return r.first->second;
}
namespace {
LLVMContext g_llctx;
Module *g_mod;
const DataLayout *DL;
std::unordered_map<const llvm::Value *, u64> g_addr; // globals & functions
std::unordered_map<const Function *, Func *> g_fmap;
std::map<llvm::Type *, symx::Type *> g_types;

void leavesOf(llvm::Type *t, unsigned off, symx::Type &out) {
    if (t->isIntegerTy()) out.leaves.push_back({off, t->getIntegerBitWidth(), false});
    else if (t->isPointerTy()) out.leaves.push_back({off, 64, false});
    else if (t->isFloatTy()) out.leaves.push_back({off, 32, true});
    else if (t->isDoubleTy()) out.leaves.push_back({off, 64, true});
    else if (t->isX86_FP80Ty()) out.leaves.push_back({off, 80, true});
    else if (auto *s = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i) leavesOf(s->getElementType(i), off + (unsigned)sl->getElementOffset(i), out);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); ++i) leavesOf(a->getElementType(), off + (unsigned)(i * es), out);
    } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeStoreSize(v->getElementType());
        for (unsigned i = 0; i < v->getNumElements(); ++i) leavesOf(v->getElementType(), off + (unsigned)(i * es), out);
    } else out.leaves.push_back({off, 64, false});
}
const symx::Type *typeOf(llvm::Type *t) {
    auto &r = g_types[t];
    if (!r) {
        r = new symx::Type();
        r->size = 0;
        if (!t->isVoidTy() && t->isSized()) { r->size = (unsigned)DL->getTypeStoreSize(t).getFixedValue(); leavesOf(t, 0, *r); }
    }
    return r;
}
int nslots(llvm::Type *t) { return t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy() ? 0 : (int)typeOf(t)->leaves.size(); }

bool evalInt(const Constant *c, u128 &out);
// evaluates a constant to a flat list of integers (one per leaf)
bool evalConst(const Constant *c, std::vector<u128> &out) {
    llvm::Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (int i = 0; i < nslots(t); ++i) out.push_back(0); return true; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { for (auto &o : cs->operands()) if (!evalConst(cast<Constant>(o), out)) return false; return true; }
    if (auto *cs = dyn_cast<ConstantArray>(c)) { for (auto &o : cs->operands()) if (!evalConst(cast<Constant>(o), out)) return false; return true; }
    if (auto *cs = dyn_cast<ConstantVector>(c)) { for (auto &o : cs->operands()) if (!evalConst(cast<Constant>(o), out)) return false; return true; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); ++i) if (!evalConst(cd->getElementAsConstant(i), out)) return false;
        return true;
    }
    u128 v;
    if (!evalInt(c, v)) return false;
    out.push_back(v);
    return true;
}
u128 apToU128(APInt const &a) {
    APInt x = a.getBitWidth() < 128 ? a.zext(128) : a.trunc(128);
    return ((u128)x.getRawData()[1] << 64) | x.getRawData()[0];
}
bool evalInt(const Constant *c, u128 &out) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { out = apToU128(ci->getValue()); return true; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out = apToU128(cf->getValueAPF().bitcastToAPInt()); return true; }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { out = 0; return true; }
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalInt(ga->getAliasee(), out);
    if (isa<GlobalValue>(c)) {
        auto it = g_addr.find(c);
        if (it == g_addr.end()) return false;
        out = it->second;
        return true;
    }
    if (auto *gep = dyn_cast<GEPOperator>(c)) {
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) return false;
        u128 b;
        if (!evalInt(cast<Constant>(gep->getPointerOperand()), b)) return false;
        out = (u64)((u64)b + (u64)off.getSExtValue());
        return true;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        u128 a, b;
        unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getIntegerBitWidth();
        switch (ce->getOpcode()) {
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
            case Instruction::ZExt: case Instruction::AddrSpaceCast:
                if (!evalInt(ce->getOperand(0), a)) return false;
                out = a & mask128(w);
                return true;
            case Instruction::Sub: case Instruction::Add: case Instruction::Or: case Instruction::And:
                if (!evalInt(ce->getOperand(0), a) || !evalInt(ce->getOperand(1), b)) return false;
                out = ce->getOpcode() == Instruction::Sub ? a - b : ce->getOpcode() == Instruction::Add ? a + b : ce->getOpcode() == Instruction::Or ? a | b : a & b;
                out &= mask128(w);
                return true;
            case Instruction::ICmp:
                if (!evalInt(ce->getOperand(0), a) || !evalInt(ce->getOperand(1), b)) return false;
                if (ce->getPredicate() == CmpInst::ICMP_EQ) { out = a == b; return true; }
                if (ce->getPredicate() == CmpInst::ICMP_NE) { out = a != b; return true; }
                return false;
            default: return false;
        }
    }
    return false;
}
bool writeInit(const Constant *c, std::vector<u8> &bytes, u64 off) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return true;
    llvm::Type *t = c->getType();
    if (auto *s = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); ++i) if (!writeInit(s->getOperand(i), bytes, off + sl->getElementOffset(i))) return false;
        return true;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) if (!writeInit(a->getOperand(i), bytes, off + i * es)) return false;
        return true;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(bytes.data() + off, r.data(), r.size());
        return true;
    }
    u128 v;
    if (!evalInt(c, v)) return false;
    u64 n = DL->getTypeStoreSize(t);
    for (u64 i = 0; i < n && i < 16; ++i) bytes[off + i] = (u8)(v >> (8 * i));
    return true;
}
std::string textOf(const llvm::Value &v) { std::string s; raw_string_ostream o(s); o << v; return s; }

struct Decoder {
    Program &prog;
    Func &f;
    Function &fn;
    std::unordered_map<const llvm::Value *, int> slot;
    std::unordered_map<const BasicBlock *, int> bbIdx;
    std::map<std::pair<std::vector<u64>, int>, int> constIdx;
    std::unordered_map<const Constant *, int> constBase;
    Decoder(Program &p, Func &f, Function &fn) : prog(p), f(f), fn(fn) {}
    int addConst(u128 v, unsigned w) {
        Value x;
        if (w > 64) x = Value{0, mkConst(v, w)}; else x = V((u64)v & mask64(w));
        f.consts.push_back(x);
        return ~((int)f.consts.size() - 1);
    }
    std::vector<Ref> refs(const llvm::Value *v) {
        std::vector<Ref> r;
        if (auto *c = dyn_cast<Constant>(v)) {
            auto *ty = typeOf(c->getType());
            std::vector<u128> vals;
            if (!evalConst(c, vals)) {
                // reference to something unknown: poison address
                errs() << "symx: unsupported constant " << *c << "\n";
                vals.assign(ty->leaves.size(), 0xdead000000000000ULL);
            }
            auto it = constBase.find(c);
            if (it == constBase.end()) {
                int base = (int)f.consts.size();
                for (size_t i = 0; i < vals.size(); ++i) addConst(vals[i], ty->leaves[i].w);
                it = constBase.insert({c, base}).first;
            }
            for (size_t i = 0; i < vals.size(); ++i) r.push_back(~(it->second + (int)i));
            return r;
        }
        auto it = slot.find(v);
        if (it == slot.end()) { if (v->getType()->isMetadataTy()) return r; report_fatal_error("symx: operand without slot"); }
        int n = nslots(v->getType());
        for (int i = 0; i < n; ++i) r.push_back(it->second + i);
        return r;
    }
    Ref ref(const llvm::Value *v) { auto r = refs(v); return r.empty() ? 0 : r[0]; }
    int edge(const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.bb = bbIdx[to];
        for (auto &phi : to->phis()) {
            auto rs = refs(phi.getIncomingValueForBlock(from));
            int s = slot[&phi];
            for (size_t i = 0; i < rs.size(); ++i) if (rs[i] != s + (int)i) e.copies.push_back({s + (int)i, rs[i]});
        }
        f.edges.push_back(e);
        return (int)f.edges.size() - 1;
    }
    static unsigned width(llvm::Type *t) { return typeOf(t->getScalarType())->leaves[0].w; }
    static unsigned aggOffset(llvm::Type *t, ArrayRef<unsigned> idx) {
        unsigned o = 0;
        for (unsigned i : idx) {
            if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) o += nslots(s->getElementType(k)); t = s->getElementType(i); }
            else if (auto *a = dyn_cast<ArrayType>(t)) { o += i * nslots(a->getElementType()); t = a->getElementType(); }
        }
        return o;
    }
    void run() {
        for (auto &a : fn.args()) {
            int n = nslots(a.getType());
            slot[&a] = f.nregs;
            for (int i = 0; i < n; ++i) f.params.push_back(f.nregs++);
        }
        int b = 0;
        for (auto &bb : fn) {
            bbIdx[&bb] = b++;
            for (auto &i : bb) {
                int n = nslots(i.getType());
                if (n) { slot[&i] = f.nregs; f.nregs += n; }
            }
        }
        f.nret = nslots(fn.getReturnType());
        for (auto &bb : fn) {
            f.blocks.push_back({(int)f.insts.size()});
            for (auto &i : bb) if (!isa<PHINode>(i)) inst(i);
        }
    }
    void unsupported(Instruction &i) { Inst x; x.op = O_UNSUPPORTED; x.txt = textOf(i); f.insts.push_back(x); }
    void inst(Instruction &i) {
        Inst x;
        int n = nslots(i.getType());
        x.dst = n ? slot[&i] : -1;
        x.n = n;
        if (auto *l = i.getDebugLoc().get()) { x.line = l->getLine(); x.file = l->getFilename().data(); }
        auto opsAll = [&]() { for (auto &o : i.operands()) { auto r = refs(o); x.ops.insert(x.ops.end(), r.begin(), r.end()); } };
        switch (i.getOpcode()) {
            case Instruction::Add: x.op = O_BIN; x.sub = K_ADD; goto bin;
            case Instruction::Sub: x.op = O_BIN; x.sub = K_SUB; goto bin;
            case Instruction::Mul: x.op = O_BIN; x.sub = K_MUL; goto bin;
            case Instruction::UDiv: x.op = O_BIN; x.sub = K_UDIV; goto bin;
            case Instruction::SDiv: x.op = O_BIN; x.sub = K_SDIV; goto bin;
            case Instruction::URem: x.op = O_BIN; x.sub = K_UREM; goto bin;
            case Instruction::SRem: x.op = O_BIN; x.sub = K_SREM; goto bin;
            case Instruction::And: x.op = O_BIN; x.sub = K_AND; goto bin;
            case Instruction::Or: x.op = O_BIN; x.sub = K_OR; goto bin;
            case Instruction::Xor: x.op = O_BIN; x.sub = K_XOR; goto bin;
            case Instruction::Shl: x.op = O_BIN; x.sub = K_SHL; goto bin;
            case Instruction::LShr: x.op = O_BIN; x.sub = K_LSHR; goto bin;
            case Instruction::AShr: x.op = O_BIN; x.sub = K_ASHR; goto bin;
            bin:
                x.w = width(i.getType());
                opsAll();
                f.insts.push_back(x);
                return;
            case Instruction::FAdd: x.sub = '+'; goto fbin;
            case Instruction::FSub: x.sub = '-'; goto fbin;
            case Instruction::FMul: x.sub = '*'; goto fbin;
            case Instruction::FDiv: x.sub = '/'; goto fbin;
            fbin:
                x.op = O_FBIN;
                x.w = width(i.getType());
                if (x.w > 64) return unsupported(i);
                opsAll();
                f.insts.push_back(x);
                return;
            case Instruction::FNeg: x.op = O_FNEG; x.w = width(i.getType()); if (x.w > 64) return unsupported(i); opsAll(); f.insts.push_back(x); return;
            case Instruction::ICmp: {
                x.op = O_ICMP;
                x.sub = cast<ICmpInst>(i).getPredicate();
                x.w = width(i.getOperand(0)->getType());
                opsAll();
                f.insts.push_back(x);
                return;
            }
            case Instruction::FCmp:
                x.op = O_FCMP;
                x.sub = cast<FCmpInst>(i).getPredicate();
                x.w = width(i.getOperand(0)->getType());
                if (x.w > 64) return unsupported(i);
                opsAll();
                f.insts.push_back(x);
                return;
            case Instruction::Trunc: x.op = O_TRUNC; goto castop;
            case Instruction::ZExt: x.op = O_ZEXT; goto castop;
            case Instruction::SExt: x.op = O_SEXT; goto castop;
            case Instruction::PtrToInt: x.op = width(i.getType()) <= 64 ? O_TRUNC : O_ZEXT; goto castop;
            case Instruction::IntToPtr: x.op = width(i.getOperand(0)->getType()) <= 64 ? O_ZEXT : O_TRUNC; goto castop;
            castop:
                x.w = width(i.getOperand(0)->getType());
                x.w2 = width(i.getType());
                opsAll();
                f.insts.push_back(x);
                return;
            case Instruction::BitCast:
                if (nslots(i.getType()) != nslots(i.getOperand(0)->getType()) || width(i.getType()) != width(i.getOperand(0)->getType())) return unsupported(i);
                x.op = O_COPY; opsAll(); f.insts.push_back(x); return;
            case Instruction::AddrSpaceCast: x.op = O_COPY; opsAll(); f.insts.push_back(x); return;
            case Instruction::Freeze: x.op = O_COPY; opsAll(); f.insts.push_back(x); return;
            case Instruction::FPToSI: x.sub = 's'; goto fpc;
            case Instruction::FPToUI: x.sub = 'u'; goto fpc;
            case Instruction::SIToFP: x.sub = 'S'; goto fpc;
            case Instruction::UIToFP: x.sub = 'U'; goto fpc;
            case Instruction::FPExt: x.sub = 'e'; goto fpc;
            case Instruction::FPTrunc: x.sub = 't'; goto fpc;
            fpc:
                x.op = O_FPCONV;
                x.w = width(i.getOperand(0)->getType());
                x.w2 = width(i.getType());
                if (x.w > 64 || x.w2 > 64) return unsupported(i);
                opsAll();
                f.insts.push_back(x);
                return;
            case Instruction::Alloca: {
                auto &a = cast<AllocaInst>(i);
                x.op = O_ALLOCA;
                x.imm.push_back((i64)DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue());
                x.ops.push_back(ref(a.getArraySize()));
                f.insts.push_back(x);
                return;
            }
            case Instruction::Load:
                x.op = O_LOAD;
                x.ty = typeOf(i.getType());
                x.ops.push_back(ref(i.getOperand(0)));
                f.insts.push_back(x);
                return;
            case Instruction::Store: {
                x.op = O_STORE;
                x.ty = typeOf(i.getOperand(0)->getType());
                x.ops = refs(i.getOperand(0));
                x.ops.push_back(ref(i.getOperand(1)));
                f.insts.push_back(x);
                return;
            }
            case Instruction::GetElementPtr: {
                auto &g = cast<GetElementPtrInst>(i);
                if (g.getType()->isVectorTy()) return unsupported(i);
                x.op = O_GEP;
                x.ops.push_back(ref(g.getPointerOperand()));
                i64 off = 0;
                for (auto it = gep_type_begin(g), ie = gep_type_end(g); it != ie; ++it) {
                    llvm::Value *idx = it.getOperand();
                    if (StructType *s = it.getStructTypeOrNull()) {
                        off += (i64)DL->getStructLayout(s)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue());
                        continue;
                    }
                    i64 sz = (i64)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                    if (auto *c = dyn_cast<ConstantInt>(idx)) { off += sz * c->getSExtValue(); continue; }
                    x.ops.push_back(ref(idx));
                    x.imm.push_back(sz);
                    x.imm.push_back(width(idx->getType()));
                }
                x.imm.push_back(off);
                f.insts.push_back(x);
                return;
            }
            case Instruction::Select:
                x.op = O_SELECT;
                x.ops = refs(i.getOperand(0));
                x.w2 = (unsigned)x.ops.size(); // 1 or n
                x.ty = typeOf(i.getType());
                for (int k = 1; k <= 2; ++k) { auto r = refs(i.getOperand(k)); x.ops.insert(x.ops.end(), r.begin(), r.end()); }
                f.insts.push_back(x);
                return;
            case Instruction::InsertValue: case Instruction::ExtractValue: {
                x.op = O_COPY;
                if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                    unsigned o = aggOffset(ev->getAggregateOperand()->getType(), ev->getIndices());
                    auto r = refs(ev->getAggregateOperand());
                    for (int k = 0; k < n; ++k) x.ops.push_back(r[o + k]);
                } else {
                    auto *iv = cast<InsertValueInst>(&i);
                    unsigned o = aggOffset(iv->getAggregateOperand()->getType(), iv->getIndices());
                    auto r = refs(iv->getAggregateOperand());
                    auto v = refs(iv->getInsertedValueOperand());
                    for (size_t k = 0; k < v.size(); ++k) r[o + k] = v[k];
                    x.ops = r;
                }
                f.insts.push_back(x);
                return;
            }
            case Instruction::ExtractElement: {
                auto *c = dyn_cast<ConstantInt>(i.getOperand(1));
                if (!c) return unsupported(i);
                x.op = O_COPY;
                x.ops.push_back(refs(i.getOperand(0))[c->getZExtValue()]);
                f.insts.push_back(x);
                return;
            }
            case Instruction::InsertElement: {
                auto *c = dyn_cast<ConstantInt>(i.getOperand(2));
                if (!c) return unsupported(i);
                x.op = O_COPY;
                x.ops = refs(i.getOperand(0));
                x.ops[c->getZExtValue()] = ref(i.getOperand(1));
                f.insts.push_back(x);
                return;
            }
            case Instruction::ShuffleVector: {
                auto &s = cast<ShuffleVectorInst>(i);
                x.op = O_COPY;
                auto a = refs(s.getOperand(0)), b = refs(s.getOperand(1));
                a.insert(a.end(), b.begin(), b.end());
                for (int m : s.getShuffleMask()) x.ops.push_back(a[m < 0 ? 0 : m]);
                f.insts.push_back(x);
                return;
            }
            case Instruction::Br: {
                auto &b = cast<BranchInst>(i);
                if (b.isUnconditional()) {
                    x.op = O_BR;
                    x.e1 = edge(i.getParent(), b.getSuccessor(0));
                } else {
                    x.op = O_CONDBR;
                    x.ops.push_back(ref(b.getCondition()));
                    x.e1 = edge(i.getParent(), b.getSuccessor(0));
                    x.e2 = edge(i.getParent(), b.getSuccessor(1));
                }
                f.insts.push_back(x);
                return;
            }
            case Instruction::Switch: {
                auto &s = cast<SwitchInst>(i);
                x.op = O_SWITCH;
                x.w = width(s.getCondition()->getType());
                x.ops.push_back(ref(s.getCondition()));
                std::map<BasicBlock *, int> em;
                auto E_ = [&](BasicBlock *b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = edge(i.getParent(), b); };
                x.e1 = E_(s.getDefaultDest());
                for (auto &c : s.cases()) x.cases.push_back({apToU128(c.getCaseValue()->getValue()), E_(c.getCaseSuccessor())});
                f.insts.push_back(x);
                return;
            }
            case Instruction::Ret:
                x.op = O_RET;
                if (i.getNumOperands()) x.ops = refs(i.getOperand(0));
                f.insts.push_back(x);
                return;
            case Instruction::Unreachable: x.op = O_UNREACHABLE; f.insts.push_back(x); return;
            case Instruction::Resume: x.op = O_RESUME; x.ops = refs(i.getOperand(0)); f.insts.push_back(x); return;
            case Instruction::LandingPad: {
                auto &l = cast<LandingPadInst>(i);
                x.op = O_LANDINGPAD;
                x.sub = l.isCleanup();
                // imm: (kind, address)*
                for (unsigned k = 0; k < l.getNumClauses(); ++k) {
                    if (l.isCatch(k)) {
                        u128 a = 0;
                        evalInt(l.getClause(k), a);
                        x.imm.push_back(0);
                        x.imm.push_back((i64)a);
                    } else {
                        std::vector<u128> v;
                        auto *arr = l.getClause(k);
                        if (!isa<ConstantAggregateZero>(arr) && !isa<UndefValue>(arr)) evalConst(arr, v);
                        x.imm.push_back(1);
                        x.imm.push_back((i64)v.size());
                        for (auto a : v) x.imm.push_back((i64)a);
                    }
                }
                f.insts.push_back(x);
                return;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto &c = cast<CallBase>(i);
                x.op = i.getOpcode() == Instruction::Call ? O_CALL : O_INVOKE;
                if (c.isInlineAsm()) {
                    auto *ia = cast<InlineAsm>(c.getCalledOperand());
                    if (ia->getAsmString().empty()) { // compiler barrier
                        x.op = O_NOP;
                        if (n) return unsupported(i);
                        f.insts.push_back(x);
                        return;
                    }
                    return unsupported(i);
                }
                llvm::Value *cv = c.getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                Function *cf = dyn_cast<Function>(cv);
                if (cf && cf->isIntrinsic()) {
                    auto id = cf->getIntrinsicID();
                    switch (id) {
                        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
                        case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
                        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start:
                        case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::dbg_assign: case Intrinsic::stackrestore:
                            return;
                        default: break;
                    }
                    std::string nm = cf->getName().str();
                    // strip type suffix
                    nm = Intrinsic::getBaseName(id).str();
                    x.ext = extId(nm);
                } else if (cf) {
                    x.callee = g_fmap[cf];
                    x.ext = -1;
                } else {
                    x.imm.push_back(1); // indirect
                }
                for (unsigned k = 0; k < c.arg_size(); ++k) {
                    auto *a = c.getArgOperand(k);
                    auto r = a->getType()->isMetadataTy() ? std::vector<Ref>() : refs(a);
                    x.ops.insert(x.ops.end(), r.begin(), r.end());
                    x.argSlots.push_back((int)r.size());
                    unsigned bv = 0;
                    if (c.isByValArgument(k)) bv = (unsigned)DL->getTypeAllocSize(c.getParamByValType(k)).getFixedValue();
                    x.byval.push_back(bv);
                    if (k == 0 && cf && cf->isIntrinsic() && !a->getType()->isMetadataTy()) x.w = width(a->getType());
                }
                if (!cf) x.ops.push_back(ref(cv)); // callee last
                x.w2 = n == 1 ? width(i.getType()) : 0;
                x.ty = n ? typeOf(i.getType()) : nullptr;
                if (auto *inv = dyn_cast<InvokeInst>(&i)) {
                    x.e1 = edge(i.getParent(), inv->getNormalDest());
                    x.e2 = edge(i.getParent(), inv->getUnwindDest());
                }
                f.insts.push_back(x);
                return;
            }
            case Instruction::Fence: return;
            case Instruction::AtomicCmpXchg: {
                x.op = O_CMPXCHG;
                x.ty = typeOf(i.getOperand(1)->getType());
                opsAll();
                f.insts.push_back(x);
                return;
            }
            case Instruction::AtomicRMW: {
                auto &r = cast<AtomicRMWInst>(i);
                x.op = O_RMW;
                switch (r.getOperation()) {
                    case AtomicRMWInst::Xchg: x.sub = 0; break;
                    case AtomicRMWInst::Add: x.sub = K_ADD; break;
                    case AtomicRMWInst::Sub: x.sub = K_SUB; break;
                    case AtomicRMWInst::And: x.sub = K_AND; break;
                    case AtomicRMWInst::Or: x.sub = K_OR; break;
                    case AtomicRMWInst::Xor: x.sub = K_XOR; break;
                    default: return unsupported(i);
                }
                x.ty = typeOf(i.getType());
                x.w = width(i.getType());
                opsAll();
                f.insts.push_back(x);
                return;
            }
            default: return unsupported(i);
        }
    }
};
} // namespace

void decodeFunc(Program &prog, Func *f) {
    if (f->decoded) return;
    f->decoded = true;
    if (f->decl) return;
    Decoder d(prog, *f, *(Function *)f->llvm);
    d.run();
}

bool loadProgram(LoadOptions const &opt, Program &prog, std::string &err) {
    std::unique_ptr<Module> mod;
    {
        std::unique_ptr<Linker> linker;
        for (auto &fn : opt.files) {
            SMDiagnostic diag;
            auto m = parseIRFile(fn, diag, g_llctx);
            if (!m) { err = "cannot read " + fn + ": " + diag.getMessage().str(); return false; }
            if (!mod) { mod = std::move(m); linker.reset(new Linker(*mod)); }
            else if (linker->linkInModule(std::move(m), mod.get() ? Linker::Flags::None : Linker::Flags::None)) { err = "cannot link " + fn; return false; }
        }
    }
    g_mod = mod.release();
    // internalize everything except main and drop what is unreachable
    internalizeModule(*g_mod, [](const GlobalValue &gv) { return gv.getName() == "main"; });
    if (auto *cu = g_mod->getGlobalVariable("llvm.used")) cu->eraseFromParent();
    if (auto *cu = g_mod->getGlobalVariable("llvm.compiler.used")) cu->eraseFromParent();
    {
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        GlobalDCEPass().run(*g_mod, MAM);
    }
    DL = &g_mod->getDataLayout();
    // functions
    u64 fslot = 1; // functions live in slot 1..15, 16 bytes apart
    u64 faddr = fslot << SLOT_SHIFT;
    for (auto &fn : *g_mod) {
        if (fn.isIntrinsic()) continue;
        auto *f = new Func();
        f->name = fn.getName().str();
        f->llvm = &fn;
        f->decl = fn.isDeclaration();
        f->vararg = fn.isVarArg();
        f->addr = faddr;
        faddr += 16;
        if (faddr >= (GLOBAL_BASE_SLOT << SLOT_SHIFT)) { err = "too many functions"; return false; }
        if (auto *sp = fn.getSubprogram()) {
            auto d = sp->getDirectory(), p = sp->getFilename();
            std::string full = p.startswith("/") ? p.str() : (d + "/" + p).str();
            if (!opt.repoDir.empty() && full.compare(0, opt.repoDir.size(), opt.repoDir) == 0) f->repo = true;
        }
        f->nret = nslots(fn.getReturnType());
        g_fmap[&fn] = f;
        g_addr[&fn] = f->addr;
        prog.funcs.push_back(f);
        prog.byName[f->name] = f;
        prog.byAddr[f->addr] = f;
    }
    for (auto *f : prog.funcs) {
        if (!opt.zeroFuncs.empty() && f->name.compare(0, 2, "_Z") == 0) {
            f->demangled = demangle(f->name);
            for (auto &z : opt.zeroFuncs) {
                // match the function's own (unqualified) name
                auto &d = f->demangled;
                auto p = d.find(z + "(");
                bool hit = p != std::string::npos && (p == 0 || !(isalnum((unsigned char)d[p - 1]) || d[p - 1] == '_'));
                if (!hit) {
                    p = d.find(z + "<");
                    hit = p != std::string::npos && (p == 0 || !(isalnum((unsigned char)d[p - 1]) || d[p - 1] == '_'));
                }
                // the name must be the last component before the argument list at nesting depth 0
                if (hit) {
                    int depth = 0; bool ok = true;
                    for (size_t k = 0; k < p; ++k) { if (d[k] == '<' || d[k] == '(') ++depth; if (d[k] == '>' || d[k] == ')') --depth; }
                    ok = depth == 0;
                    if (ok) f->ret0 = true;
                }
            }
        }
        if (f->decl) f->ext = extId(f->name);
    }
    // globals
    u64 slot = GLOBAL_BASE_SLOT;
    std::vector<GlobalVariable *> gvs;
    for (auto &g : g_mod->globals()) {
        if (g.getName().startswith("llvm.")) continue;
        Global x;
        x.name = g.getName().str();
        x.size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
        x.external = g.isDeclaration();
        if (x.external && x.size < 64) x.size = 64;
        x.constant = g.isConstant();
        x.addr = slot << SLOT_SHIFT;
        slot += (x.size >> SLOT_SHIFT) + 1;
        g_addr[&g] = x.addr;
        prog.globals.push_back(x);
        gvs.push_back(&g);
    }
    for (size_t i = 0; i < gvs.size(); ++i) {
        auto &x = prog.globals[i];
        x.init.assign(x.size, 0);
        if (gvs[i]->hasInitializer() && !writeInit(gvs[i]->getInitializer(), x.init, 0)) {
            errs() << "symx: unsupported initializer of " << x.name << "\n";
        }
    }
    // RTTI hierarchy
    for (size_t i = 0; i < gvs.size(); ++i) {
        auto &x = prog.globals[i];
        if (x.name.compare(0, 4, "_ZTI") != 0) continue;
        TypeInfo ti;
        ti.name = x.name;
        if (gvs[i]->hasInitializer()) {
            if (auto *s = dyn_cast<ConstantStruct>(gvs[i]->getInitializer())) {
                unsigned n = s->getNumOperands();
                u128 a;
                if (n == 3) { if (evalInt(s->getOperand(2), a)) ti.bases.push_back({(u64)a, 0}); }
                else if (n > 3) {
                    // vmi: vt, name, flags, count, (base, offset_flags)*
                    for (unsigned k = 4; k + 1 < n; k += 2) {
                        u128 b;
                        if (evalInt(s->getOperand(k), a) && evalInt(s->getOperand(k + 1), b)) ti.bases.push_back({(u64)a, (i64)b >> 8});
                    }
                }
            }
        }
        prog.types[x.addr] = ti;
    }
    // global constructors
    if (auto *gc = g_mod->getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, Func *>> v;
        if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
            for (auto &o : arr->operands()) {
                auto *s = cast<ConstantStruct>(o);
                if (auto *cf = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), g_fmap[cf]});
            }
        }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &p : v) prog.ctors.push_back(p.second);
    }
    return true;
}
} // namespace symx
