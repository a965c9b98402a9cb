// Interpreter with symbolic values, copy-on-write memory and depth-first forking.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <llvm/IR/Instructions.h>
#include <llvm/Demangle/Demangle.h>
namespace symx {
namespace {
typedef llvm::CmpInst CI;

// {{{ memory
struct SymByte { E e; u32 idx; };
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_HEAP, OK_EXC, OK_EXTERN };
struct Obj {
    u32 ref;
    ObjKind kind;
    bool ro;
    u64 base, size;
    u8 *data;
    SymByte *sym;
};
Obj *newObj(u64 base, u64 size, ObjKind k) {
    Obj *o = (Obj *)malloc(sizeof(Obj));
    o->ref = 1; o->kind = k; o->ro = false; o->base = base; o->size = size;
    o->data = (u8 *)malloc(size ? size : 1);
    o->sym = nullptr;
    return o;
}
inline void decObj(Obj *o) { if (o && --o->ref == 0) { free(o->data); free(o->sym); free(o); } }
Obj *cloneObj(Obj *o) {
    Obj *n = newObj(o->base, o->size, o->kind);
    n->ro = o->ro;
    memcpy(n->data, o->data, o->size);
    if (o->sym) { n->sym = (SymByte *)malloc(o->size * sizeof(SymByte)); memcpy(n->sym, o->sym, o->size * sizeof(SymByte)); }
    return n;
}
const u64 CHUNK = 256;
struct Chunk { u32 ref; Obj *o[CHUNK]; };
struct Table {
    std::vector<Chunk *> c;
    Table() {}
    Table(Table const &t) : c(t.c) { for (auto *x : c) if (x) ++x->ref; }
    Table &operator=(Table const &t) = delete;
    static void dec(Chunk *x) { if (x && --x->ref == 0) { for (auto *o : x->o) decObj(o); free(x); } }
    ~Table() { for (auto *x : c) dec(x); }
    Obj *get(u64 i) const { u64 k = i / CHUNK; if (k >= c.size() || !c[k]) return nullptr; return c[k]->o[i % CHUNK]; }
    Obj *&slot(u64 i) {
        u64 k = i / CHUNK;
        if (k >= c.size()) c.resize(k + 1, nullptr);
        if (!c[k]) { c[k] = (Chunk *)calloc(1, sizeof(Chunk)); c[k]->ref = 1; }
        else if (c[k]->ref > 1) {
            auto *n = (Chunk *)malloc(sizeof(Chunk));
            n->ref = 1;
            memcpy(n->o, c[k]->o, sizeof(n->o));
            for (auto *o : n->o) if (o) ++o->ref;
            --c[k]->ref;
            c[k] = n;
        }
        return c[k]->o[i % CHUNK];
    }
};
const u64 STACK_SLOT = 1ULL << 20, HEAP_SLOT = 1ULL << 22;
// }}}

struct Frame {
    u32 ref = 1;
    Func *f;
    int pc = 0;
    u64 stackBase = 0;
    bool detached = false; // return does not resume a call instruction
    u64 va = 0;            // further arguments of a variadic function
    std::vector<Value> regs;
};
struct Exc { u64 ptr, ti, dtor; int refs, handlers; };
struct Obs { std::string name; std::vector<Value> v; unsigned w; bool str; };

struct State {
    Table tab[3];
    u64 stackTop = STACK_SLOT, heapTop = HEAP_SLOT;
    std::vector<Frame *> frames;
    std::vector<E> pc;
    std::vector<E> inputs;
    std::map<u32, u64> fixed; // determined variables
    Model model;
    std::vector<Exc> excs;
    std::vector<u64> caught;   // stack of caught exceptions
    u64 uncaught = 0;
    std::vector<Obs> obs;
    u64 insts = 0;
    u64 errnoAddr = 0;
    State() {}
    State(State const &s) : tab{s.tab[0], s.tab[1], s.tab[2]}, stackTop(s.stackTop), heapTop(s.heapTop), frames(s.frames), pc(s.pc), inputs(s.inputs), fixed(s.fixed), model(s.model), excs(s.excs), caught(s.caught), uncaught(s.uncaught), obs(s.obs), insts(s.insts), errnoAddr(s.errnoAddr) {
        for (auto *f : frames) ++f->ref;
    }
    ~State() { for (auto *f : frames) if (--f->ref == 0) delete f; }
    Frame *top() {
        Frame *&f = frames.back();
        if (f->ref > 1) { auto *n = new Frame(*f); n->ref = 1; --f->ref; f = n; }
        return f;
    }
    void popFrame() {
        Frame *f = frames.back();
        while (stackTop > f->stackBase) { --stackTop; Obj *&o = tab[1].slot(stackTop - STACK_SLOT); if (o) { decObj(o); o = nullptr; } }
        frames.pop_back();
        if (--f->ref == 0) delete f;
    }
    static int region(u64 slot, u64 &i) {
        if (slot < STACK_SLOT) { i = slot; return 0; }
        if (slot < HEAP_SLOT) { i = slot - STACK_SLOT; return 1; }
        i = slot - HEAP_SLOT;
        return 2;
    }
    Obj *find(u64 addr) const {
        u64 i; u64 s = addr >> SLOT_SHIFT;
        if (s >= HEAP_SLOT + (1ULL << 26)) return nullptr;
        int r = region(s, i);
        return tab[r].get(i);
    }
    Obj *findW(u64 addr) {
        u64 i; u64 s = addr >> SLOT_SHIFT;
        if (s >= HEAP_SLOT + (1ULL << 26)) return nullptr;
        int r = region(s, i);
        Obj *o = tab[r].get(i);
        if (!o) return nullptr;
        Obj *&sl = tab[r].slot(i);
        o = sl;
        if (o->ref > 1 ) {
            u64 n = (o->size >> SLOT_SHIFT) + 1;
            if (n == 1) { Obj *c = cloneObj(o); --o->ref; sl = c; return c; }
            if (o->ref > n) {
                Obj *c = cloneObj(o);
                u64 b; region(o->base >> SLOT_SHIFT, b);
                for (u64 k = 0; k < n; ++k) { Obj *&x = tab[r].slot(b + k); decObj(x); x = c; if (k) ++c->ref; }
                return c;
            }
        }
        return o;
    }
    void put(Obj *o) {
        u64 n = (o->size >> SLOT_SHIFT) + 1, b;
        int r = region(o->base >> SLOT_SHIFT, b);
        for (u64 k = 0; k < n; ++k) { tab[r].slot(b + k) = o; if (k) ++o->ref; }
    }
    u64 allocHeap(u64 size, ObjKind k = OK_HEAP, int fill = 0xbe) {
        u64 base = heapTop << SLOT_SHIFT;
        heapTop += (size >> SLOT_SHIFT) + 1;
        Obj *o = newObj(base, size, k);
        memset(o->data, fill, size);
        put(o);
        return base;
    }
    u64 allocStack(u64 size) {
        u64 base = stackTop << SLOT_SHIFT;
        stackTop += (size >> SLOT_SHIFT) + 1;
        Obj *o = newObj(base, size, OK_STACK);
        memset(o->data, 0xbe, size);
        put(o);
        return base;
    }
    void freeObj(Obj *o) {
        u64 n = (o->size >> SLOT_SHIFT) + 1, b;
        int r = region(o->base >> SLOT_SHIFT, b);
        for (u64 k = 0; k < n; ++k) { Obj *&x = tab[r].slot(b + k); decObj(x); x = nullptr; }
    }
};

enum Ctl { C_NEXT, C_JUMP, C_END }; // C_JUMP: frame/pc already set

struct PathEnd { };

struct Exec {
    Program &prog;
    Config const &cfg;
    Result &res;
    std::vector<State *> work;
    State *S = nullptr;
    Frame *F = nullptr;
    const Inst *I = nullptr;
    std::chrono::steady_clock::time_point t0;
    std::map<std::string, E> varByKey;
    std::vector<int> extKind; // by ext id
    std::set<std::string> violKeys;
    bool stop = false;
    std::vector<Value> tmp;

    Exec(Program &p, Config const &c, Result &r) : prog(p), cfg(c), res(r) {}
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    // {{{ values
    inline Value get(Ref r) const { return r >= 0 ? F->regs[r] : F->f->consts[~r]; }
    static E ex(Value v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    inline void set(int d, Value v) { F->regs[d] = v; }
    // }}}
    // {{{ path end helpers
    std::string where() {
        if (!I || !F) return "?";
        std::string s;
        if (I->file) { s = I->file; auto p = s.find("/repo/"); if (p != std::string::npos) s = s.substr(p + 6); s += ":" + std::to_string(I->line); }
        return s + " in " + llvm::demangle(F->f->name);
    }
    std::vector<InputVal> inputsOf(Model const &m) {
        std::vector<InputVal> v;
        for (auto e : S->inputs) {
            auto &vi = g_vars[e->aux];
            v.push_back({vi.name, m.get(e->aux), vi.w, vi.isSigned});
        }
        return v;
    }
    std::vector<std::string> stackOf() {
        std::vector<std::string> v;
        for (size_t i = S->frames.size(); i-- > 0 && v.size() < 24;) {
            auto *f = S->frames[i];
            std::string s = llvm::demangle(f->f->name);
            auto &in = f->f->insts[std::min<size_t>(f->pc, f->f->insts.size() - 1)];
            if (in.file) { s += " @ "; s += in.file; s += ":" + std::to_string(in.line); }
            if (s.size() > 300) s = s.substr(0, 300) + "...";
            v.push_back(s);
        }
        return v;
    }
    void violation(std::string const &kind, std::string const &label, Model const &m) {
        std::string key = kind + "|" + label;
        int n = 0;
        for (auto &v : res.violations) if (v.kind + "|" + v.label == key) ++n;
        if (n >= 3 || res.violations.size() >= cfg.maxViolations) { if (res.violations.size() >= cfg.maxViolations) stop = true; return; }
        Violation v;
        v.kind = kind; v.label = label; v.where = where();
        v.inputs = inputsOf(m);
        v.stack = stackOf();
        res.violations.push_back(v);
    }
    [[noreturn]] void endPath() { throw PathEnd(); }
    [[noreturn]] void error(std::string const &kind, std::string const &msg) {
        if (cfg.trace) fprintf(stderr, "error %s: %s at %s\n", kind.c_str(), msg.c_str(), where().c_str());
        violation(kind, msg, S->model);
        ++res.pathsError;
        endPath();
    }
    [[noreturn]] void incomplete(std::string const &why) {
        if (cfg.trace) fprintf(stderr, "incomplete: %s\n", why.c_str());
        ++res.incomplete[why];
        endPath();
    }
    // }}}
    // {{{ constraints
    void addFixed(State *st, E c) {
        // c is assumed true
        if (c->k == K_VAR) st->fixed[c->aux] = 1;
        else if (c->k == K_NOT) { if (c->op[0]->k == K_VAR) st->fixed[c->op[0]->aux] = 0; }
        else if (c->k == K_AND && c->w == 1) { addFixed(st, c->op[0]); addFixed(st, c->op[1]); }
        else if (c->k == K_EQ) {
            E a = c->op[0], b = c->op[1];
            if (a->isConst()) std::swap(a, b);
            if (!b->isConst()) return;
            if (a->k == K_ZEXT || a->k == K_SEXT) a = a->op[0];
            if (a->k == K_VAR) st->fixed[a->aux] = (u64)b->c & mask64(a->w);
        }
    }
    void addPC(State *st, E c) {
        if (c->isConst()) return;
        if (c->k == K_AND && c->w == 1) { addPC(st, c->op[0]); addPC(st, c->op[1]); return; }
        if (c->k == K_NOT && c->op[0]->k == K_OR && c->w == 1) { addPC(st, mkNot(c->op[0]->op[0])); addPC(st, mkNot(c->op[0]->op[1])); return; }
        st->pc.push_back(c);
        addFixed(st, c);
        if (st->pc.size() > res.maxDepthPC) res.maxDepthPC = st->pc.size();
    }
    bool determined(E c) {
        for (auto v : *c->vars) if (!S->fixed.count(v)) return false;
        return true;
    }
    // can c hold? m receives a model
    Res check(E c, Model &m) {
        if (c->isConst()) return c->c ? SAT : UNSAT;
        if (determined(c)) return evalExpr(c, S->model) ? SAT : UNSAT;
        m = S->model;
        Res r = solve(S->pc, c, m);
        if (r == UNKNOWN) ++res.incomplete["solver gave no answer at " + where()];
        return r;
    }
    // fork a copy in which c holds (model m); it re-executes the current instruction
    State *forkWith(E c, Model const &m) {
        auto *n = new State(*S);
        n->model = m;
        addPC(n, c);
        ++res.forks;
        work.push_back(n);
        F = S->top(); // the frames are shared now
        return n;
    }
    // value of a symbolic boolean on this path; forks for the other outcome (re-executing this instruction)
    bool decide(E c) {
        if (c->isConst()) return c->c != 0;
        bool v = evalExpr(c, S->model) != 0;
        E other = v ? mkNot(c) : c, mine = v ? c : mkNot(c);
        Model m;
        if (check(other, m) == SAT) forkWith(other, m);
        addPC(S, mine);
        return v;
    }
    u64 concretize(Value v, unsigned w) {
        if (!v.e) return v.c;
        u64 x = (u64)evalExpr(v.e, S->model);
        E eq = mkEq(v.e, mkConst(x, w));
        Model m;
        if (check(mkNot(eq), m) == SAT) forkWith(mkNot(eq), m);
        addPC(S, eq);
        return x;
    }
    u64 concPtr(Value v) { return concretize(v, 64); }
    // }}}
    // {{{ memory access
    Value readLeaf(Obj *o, u64 off, unsigned w) {
        unsigned n = (w + 7) / 8;
        if (!o->sym) {
            if (w <= 64) { u64 x = 0; memcpy(&x, o->data + off, n); return V(x & mask64(w)); }
            u128 x = 0; memcpy(&x, o->data + off, n); return VE(mkConst(x, w));
        }
        bool any = false;
        for (unsigned i = 0; i < n; ++i) if (o->sym[off + i].e) { any = true; break; }
        if (!any) {
            if (w <= 64) { u64 x = 0; memcpy(&x, o->data + off, n); return V(x & mask64(w)); }
            u128 x = 0; memcpy(&x, o->data + off, n); return VE(mkConst(x, w));
        }
        SymByte s0 = o->sym[off];
        E r = nullptr;
        if (s0.e && s0.idx == 0 && s0.e->w == 8 * n) {
            bool whole = true;
            for (unsigned i = 1; i < n; ++i) if (o->sym[off + i].e != s0.e || o->sym[off + i].idx != i) { whole = false; break; }
            if (whole) r = s0.e;
        }
        if (!r) {
            for (unsigned i = 0; i < n;) {
                SymByte s = o->sym[off + i];
                E b;
                unsigned k = 1;
                if (s.e) {
                    while (i + k < n && o->sym[off + i + k].e == s.e && o->sym[off + i + k].idx == s.idx + k) ++k;
                    b = mkExtract(s.e, 8 * s.idx, 8 * k);
                } else {
                    while (i + k < n && !o->sym[off + i + k].e) ++k;
                    u128 x = 0; memcpy(&x, o->data + off + i, k);
                    b = mkConst(x, 8 * k);
                }
                r = r ? mkConcat(b, r) : b;
                i += k;
            }
        }
        if (w < 8 * n) r = mkExtract(r, 0, w);
        return VE(r);
    }
    void writeLeaf(Obj *o, u64 off, unsigned w, Value v) {
        unsigned n = (w + 7) / 8;
        if (v.e && v.e->isConst()) {
            u128 x = v.e->c;
            memcpy(o->data + off, &x, n);
            if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i].e = nullptr;
            return;
        }
        if (!v.e) {
            memcpy(o->data + off, &v.c, n > 8 ? 8 : n);
            if (n > 8) memset(o->data + off + 8, 0, n - 8);
            if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i].e = nullptr;
            return;
        }
        E e = v.e;
        if (e->w < 8 * n) e = mkZExt(e, 8 * n);
        if (!o->sym) o->sym = (SymByte *)calloc(o->size, sizeof(SymByte));
        for (unsigned i = 0; i < n; ++i) { o->sym[off + i].e = e; o->sym[off + i].idx = i; }
    }
    std::string externName(u64 a) { for (auto &g : prog.globals) if (a >= g.addr && a < g.addr + g.size) return g.name; return "?"; }
    Obj *checkAcc(u64 a, u64 n, bool write) {
        Obj *o = S->find(a);
        if (!o) {
            char b[128];
            snprintf(b, sizeof b, "access of unallocated memory at %#llx", (unsigned long long)a);
            error("memory", a < (1 << 20) ? "null pointer access" : (a >> SLOT_SHIFT) >= HEAP_SLOT && (a >> SLOT_SHIFT) < S->heapTop ? "use after free" : "wild pointer access");
        }
        if (o->kind == OK_EXTERN) incomplete("access to external global " + externName(a));
        u64 off = a - o->base;
        if (off + n > o->size) error("memory", "out of bounds access");
        if (write) {
            if (o->ro) error("memory", "write to constant memory");
            o = S->findW(a);
        }
        return o;
    }
    // resolves a possibly symbolic address to an object such that the whole access is inside; off may stay symbolic
    Obj *resolve(Value p, u64 n, bool write, E &symOff, u64 &off) {
        symOff = nullptr;
        if (!p.e) { Obj *o = checkAcc(p.c, n, write); off = p.c - o->base; return o; }
        u64 a = (u64)evalExpr(p.e, S->model);
        Obj *o = checkAcc(a, n, false);
        E offE = mkBin(K_SUB, p.e, mkConst(o->base, 64));
        E in = mkBin(K_ULE, offE, mkConst(o->size - n, 64));
        if (!in->isConst()) {
            Model m;
            if (check(mkNot(in), m) == SAT) forkWith(mkNot(in), m);
            addPC(S, in);
        }
        if (offE->isConst()) off = (u64)offE->c;
        else if (determined(offE)) off = (u64)evalExpr(offE, S->model);
        else { off = 0; symOff = offE; }
        if (write) { if (o->ro) error("memory", "write to constant memory"); o = S->findW(a); }
        return o;
    }
    static unsigned stride(E e) { // known power of two dividing e
        switch (e->k) {
            case K_CONST: return e->c == 0 ? 4096 : (unsigned)std::min<u64>(4096, (u64)1 << __builtin_ctzll((u64)e->c | (1ULL << 12)));
            case K_ADD: case K_SUB: return std::min(stride(e->op[0]), stride(e->op[1]));
            case K_MUL: return (unsigned)std::min<u64>(4096, (u64)stride(e->op[0]) * stride(e->op[1]));
            case K_SHL: if (e->op[1]->isConst() && e->op[1]->c < 12) return (unsigned)std::min<u64>(4096, (u64)stride(e->op[0]) << (unsigned)e->op[1]->c); return stride(e->op[0]);
            case K_CONCAT: { unsigned lo = e->op[1]->w; if (e->op[1]->isConst() && e->op[1]->c == 0 && lo < 12) return 1u << lo; return stride(e->op[1]); }
            case K_ZEXT: case K_SEXT: return stride(e->op[0]);
            case K_ITE: return std::min(stride(e->op[1]), stride(e->op[2]));
            default: return 1;
        }
    }
    bool offRange(E off, u64 size, u64 n, u64 &lo, u64 &hi, u64 &st) {
        lo = off->umin; hi = std::min<u64>(off->umax, size - n);
        st = stride(off);
        // refine with the solver when large
        if (lo % st) lo += st - lo % st;
        return hi >= lo && (hi - lo) / st <= 1100;
    }
    void load(const Inst &in) {
        Value p = get(in.ops[0]);
        E so; u64 off;
        if (!p.e) {
            Obj *o = checkAcc(p.c, in.ty->size, false);
            off = p.c - o->base;
            int k = 0;
            for (auto &l : in.ty->leaves) set(in.dst + k++, readLeaf(o, off + l.off, l.w));
            return;
        }
        Obj *o = resolve(p, in.ty->size, false, so, off);
        int k = 0;
        if (!so) { for (auto &l : in.ty->leaves) set(in.dst + k++, readLeaf(o, off + l.off, l.w)); return; }
        u64 lo, hi, st;
        if (in.ty->leaves.size() != 1 || !offRange(so, o->size, in.ty->size, lo, hi, st)) {
            u64 a = concPtr(p);
            o = checkAcc(a, in.ty->size, false);
            for (auto &l : in.ty->leaves) set(in.dst + k++, readLeaf(o, a - o->base + l.off, l.w));
            return;
        }
        unsigned w = in.ty->leaves[0].w;
        // runs of equal values
        struct Run { u64 last; Value v; };
        std::vector<Run> runs;
        for (u64 x = lo; x <= hi; x += st) {
            Value v = readLeaf(o, x, w);
            if (!runs.empty() && runs.back().v.e == v.e && runs.back().v.c == v.c) runs.back().last = x;
            else runs.push_back({x, v});
        }
        E r = ex(runs.back().v, w);
        for (size_t i = runs.size() - 1; i-- > 0;) r = mkIte(mkBin(K_ULE, so, mkConst(runs[i].last, 64)), ex(runs[i].v, w), r);
        set(in.dst, VE(r));
    }
    void store(const Inst &in) {
        Value p = get(in.ops.back());
        E so; u64 off;
        Obj *o = resolve(p, in.ty->size, true, so, off);
        if (so) {
            u64 lo, hi, st;
            if (in.ty->leaves.size() == 1 && offRange(so, o->size, in.ty->size, lo, hi, st) && (hi - lo) / st <= 40) {
                unsigned w = in.ty->leaves[0].w;
                E val = ex(get(in.ops[0]), w);
                if (st * 8 >= w) {
                    for (u64 x = lo; x <= hi; x += st) {
                        E old = ex(readLeaf(o, x, w), w);
                        writeLeaf(o, x, w, VE(mkIte(mkEq(so, mkConst(x, 64)), val, old)));
                    }
                    return;
                }
            }
            u64 a = concPtr(p);
            o = checkAcc(a, in.ty->size, true);
            off = a - o->base;
        }
        int k = 0;
        for (auto &l : in.ty->leaves) writeLeaf(o, off + l.off, l.w, get(in.ops[k++]));
    }
    Value readMem(u64 a, unsigned w) { Obj *o = checkAcc(a, (w + 7) / 8, false); return readLeaf(o, a - o->base, w); }
    void writeMem(u64 a, unsigned w, Value v) { Obj *o = checkAcc(a, (w + 7) / 8, true); writeLeaf(o, a - o->base, w, v); }
    std::string cstr(u64 a) {
        std::string s;
        for (;; ++a) { Value v = readMem(a, 8); if (v.e) { s += '?'; continue; } if (!v.c) break; s += (char)v.c; if (s.size() > 4000) break; }
        return s;
    }
    void copyMem(u64 d, u64 s, u64 n) {
        if (!n) return;
        Obj *so = checkAcc(s, n, false);
        Obj *dst = checkAcc(d, n, true);
        so = S->find(s);
        u64 a = d - dst->base, b = s - so->base;
        if (so->sym || dst->sym) {
            if (!dst->sym) {
                bool any = false;
                for (u64 i = 0; i < n && !any; ++i) any = so->sym[b + i].e != nullptr;
                if (any) dst->sym = (SymByte *)calloc(dst->size ? dst->size : 1, sizeof(SymByte));
            }
            if (dst->sym) {
                if (so->sym) memmove(dst->sym + a, so->sym + b, n * sizeof(SymByte));
                else memset((void *)(dst->sym + a), 0, n * sizeof(SymByte));
            }
        }
        memmove(dst->data + a, so->data + b, n);
    }
    void setMem(u64 d, Value v, u64 n) {
        if (!n) return;
        Obj *o = checkAcc(d, n, true);
        u64 a = d - o->base;
        if (v.e) { for (u64 i = 0; i < n; ++i) writeLeaf(o, a + i, 8, v); return; }
        memset(o->data + a, (int)v.c, n);
        if (o->sym) memset((void *)(o->sym + a), 0, n * sizeof(SymByte));
    }
    // }}}
    // {{{ calls
    void pushFrame(Func *f, bool detached = false) {
        if (!f->decoded) decodeFunc(prog, f);
        if (S->frames.size() > 6000) error("stack", "call depth exceeds 6000");
        ++f->calls;
        auto *n = new Frame();
        n->f = f;
        n->pc = 0;
        n->detached = detached;
        n->stackBase = S->stackTop;
        n->regs.resize(f->nregs, Value{0, nullptr});
        S->frames.push_back(n);
        F = n;
    }
    void jump(int edge) {
        auto &e = F->f->edges[edge];
        size_t n = e.copies.size();
        if (n == 1) F->regs[e.copies[0].first] = get(e.copies[0].second);
        else if (n) {
            tmp.clear();
            for (auto &c : e.copies) tmp.push_back(get(c.second));
            for (size_t i = 0; i < n; ++i) F->regs[e.copies[i].first] = tmp[i];
        }
        F->pc = F->f->blocks[e.bb].first;
    }
    // the current call instruction of the top frame completes with value v
    void completeCall(Value *v, int n) {
        for (int i = 0; i < n; ++i) if (I->dst >= 0) set(I->dst + i, v[i]);
        if (I->op == O_INVOKE) jump(I->e1); else ++F->pc;
    }
    void doRet(const Inst &in) {
        std::vector<Value> vals;
        for (auto r : in.ops) vals.push_back(get(r));
        bool det = F->detached;
        S->popFrame();
        if (S->frames.empty()) { pathDone("return"); }
        F = S->top();
        if (det) return;
        I = &F->f->insts[F->pc];
        for (size_t i = 0; i < vals.size(); ++i) if (I->dst >= 0) set(I->dst + (int)i, vals[i]);
        if (I->op == O_INVOKE) jump(I->e1); else ++F->pc;
    }
    [[noreturn]] void pathDone(std::string const &how) {
        ++res.pathsDone;
        if (how == "exit") ++res.pathsExit;
        // reservoir: keep early samples, then every path whose number is a power-like index
        if (res.samples.size() < cfg.samples || (res.pathsDone & (res.pathsDone - 1)) == 0) {
            Sample s;
            s.inputs = inputsOf(S->model);
            for (auto &o : S->obs) {
                std::string t;
                if (o.str) for (auto &b : o.v) t += (char)(b.e ? (u64)evalExpr(b.e, S->model) : b.c);
                else t = std::to_string((i64)(o.v[0].e ? (u64)evalExpr(o.v[0].e, S->model) : o.v[0].c));
                s.observed.push_back({o.name, t});
            }
            s.end = how;
            if (res.samples.size() < 4 * cfg.samples) res.samples.push_back(s);
        }
        endPath();
    }
    // {{{ exceptions
    // all (type, offset) bases including itself
    void basesOf(u64 ti, i64 off, std::vector<std::pair<u64, i64>> &out) {
        out.push_back({ti, off});
        auto it = prog.types.find(ti);
        if (it == prog.types.end()) return;
        for (auto &b : it->second.bases) basesOf(b.first, off + b.second, out);
    }
    std::map<std::pair<u64, u64>, std::pair<bool, i64>> castCache;
    bool catches(u64 handler, u64 ti, i64 &off) {
        off = 0;
        if (handler == 0 || handler == ti) return true;
        auto it = castCache.find({handler, ti});
        if (it == castCache.end()) {
            std::vector<std::pair<u64, i64>> b;
            basesOf(ti, 0, b);
            bool ok = false; i64 o = 0;
            for (auto &x : b) if (x.first == handler) { ok = true; o = x.second; break; }
            it = castCache.insert({{handler, ti}, {ok, o}}).first;
        }
        off = it->second.second;
        return it->second.first;
    }
    Exc *findExc(u64 p) { for (auto &e : S->excs) if (e.ptr == p) return &e; return nullptr; }
    static i64 typeId(u64 ti) { return (i64)((ti >> SLOT_SHIFT) & 0x7fffffff); }
    void unwind(u64 ptr) {
        Exc *x = findExc(ptr);
        u64 ti = x ? x->ti : 0;
        // search phase: is there a handler at all?
        {
            bool found = false;
            for (size_t i = S->frames.size(); i-- > 0 && !found;) {
                Frame *f = S->frames[i];
                const Inst &in = f->f->insts[f->pc];
                if (in.op != O_INVOKE) { if (f->detached) break; continue; }
                auto &ed = f->f->edges[in.e2];
                const Inst &lp = f->f->insts[f->f->blocks[ed.bb].first];
                if (lp.op != O_LANDINGPAD) { if (f->detached) break; continue; }
                size_t k = 0;
                while (k < lp.imm.size()) {
                    i64 off;
                    if (lp.imm[k] == 0) { if (catches((u64)lp.imm[k + 1], ti, off)) { found = true; break; } k += 2; }
                    else { u64 n = (u64)lp.imm[k + 1]; bool any = false; for (u64 q = 0; q < n; ++q) any = any || catches((u64)lp.imm[k + 2 + q], ti, off); if (!any) { found = true; break; } k += 2 + n; }
                }
                if (f->detached) break;
            }
            if (!found) {
                auto it = prog.types.find(ti);
                error("uncaught", "uncaught exception of type " + (it != prog.types.end() ? llvm::demangle(it->second.name) : std::string("?")));
            }
        }
        while (!S->frames.empty()) {
            Frame *f = S->frames.back();
            const Inst &in = f->f->insts[f->pc];
            if (in.op == O_INVOKE) {
                auto &ed = f->f->edges[in.e2];
                const Inst &lp = f->f->insts[f->f->blocks[ed.bb].first];
                if (lp.op == O_LANDINGPAD) {
                    bool hit = lp.sub != 0;
                    i64 sel = 0;
                    size_t k = 0;
                    while (k < lp.imm.size()) {
                        i64 off;
                        if (lp.imm[k] == 0) {
                            if (catches((u64)lp.imm[k + 1], ti, off)) { hit = true; sel = lp.imm[k + 1] ? typeId((u64)lp.imm[k + 1]) : 0x7ffffffe; break; }
                            k += 2;
                        } else {
                            u64 n = (u64)lp.imm[k + 1];
                            bool any = false;
                            for (u64 q = 0; q < n; ++q) any = any || catches((u64)lp.imm[k + 2 + q], ti, off);
                            if (!any) { hit = true; sel = -1; break; }
                            k += 2 + n;
                        }
                    }
                    if (hit) {
                        F = S->top();
                        jump(in.e2);
                        set(lp.dst, V(ptr));
                        set(lp.dst + 1, V((u64)sel & 0xffffffff));
                        ++F->pc;
                        return;
                    }
                }
            }
            S->popFrame();
        }
        error("uncaught", "uncaught exception");
    }
    void throwExc(u64 ptr) { ++S->uncaught; unwind(ptr); }
    // }}}
    i64 adjustFor(u64 ptr) { (void)ptr; return 0; }

    void callFunc(Func *f, const Inst &in, int nOps) {
        if (f->ret0) {
            ++f->calls;
            Value z[8] = {};
            for (int i = 0; i < f->nret && i < 8; ++i) z[i] = V(0);
            completeCall(z, f->nret);
            return;
        }
        if (f->decl) { external(f->ext, in, f); return; }
        if (!f->decoded) decodeFunc(prog, f);
        Frame *caller = F;
        // evaluate arguments
        std::vector<Value> args;
        std::vector<Value> more;
        args.reserve(nOps);
        for (int i = 0; i < nOps; ++i) args.push_back(get(in.ops[i]));
        (void)caller;
        // byval copies live in the callee frame: resolve pointers first
        bool anyBv = false;
        int s = 0;
        for (size_t k = 0; k < in.byval.size(); ++k) { if (in.byval[k]) { anyBv = true; concPtr(args[s]); } s += in.argSlots[k]; }
        if (args.size() != f->params.size()) {
            if (args.size() < f->params.size()) incomplete("argument count mismatch calling " + f->name);
            if (f->vararg) more.assign(args.begin() + f->params.size(), args.end());
            args.resize(f->params.size());
        }
        if (f->vararg && anyBv) incomplete("variadic function " + f->name);
        pushFrame(f);
        if (f->vararg) {
            // all further arguments are passed on the stack
            u64 n = S->allocStack(8 * more.size() + 8);
            F->va = n;
            for (size_t k = 0; k < more.size(); ++k) {
                unsigned w = more[k].e ? more[k].e->w : 64;
                if (w > 64) incomplete("wide argument of variadic function");
                writeMem(n + 8 * k, w, more[k]);
            }
        }
        if (anyBv) {
            s = 0;
            for (size_t k = 0; k < in.byval.size(); ++k) {
                if (in.byval[k]) {
                    u64 a = args[s].e ? (u64)evalExpr(args[s].e, S->model) : args[s].c;
                    u64 n = S->allocStack(in.byval[k]);
                    copyMem(n, a, in.byval[k]);
                    args[s] = V(n);
                }
                s += in.argSlots[k];
            }
        }
        for (size_t i = 0; i < f->params.size(); ++i) F->regs[f->params[i]] = args[i];
    }
    void doCall(const Inst &in) {
        if (in.callee) { callFunc(in.callee, in, (int)in.ops.size()); return; }
        if (in.ext >= 0) { external(in.ext, in, nullptr); return; }
        u64 a = concPtr(get(in.ops.back()));
        auto it = prog.byAddr.find(a);
        if (it == prog.byAddr.end()) error("memory", "call through invalid function pointer");
        callFunc(it->second, in, (int)in.ops.size() - 1);
    }
    // }}}
    // {{{ externals
    enum X {
        X_NONE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_BCMP, X_RET0, X_RETARG0, X_VOID, X_ABORT, X_EXIT, X_TERMINATE,
        X_CXA_ALLOC, X_CXA_FREE, X_CXA_THROW, X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_CXA_GETPTR, X_DYNCAST, X_PUREVIRT, X_BADCAST,
        X_UNCAUGHT, X_EP_CURRENT, X_EP_RETHROW, X_EP_ADDREF, X_EP_RELEASE, X_EP_COPY, X_EP_ASSIGN, X_EP_DTOR, X_EP_SWAP, X_EP_MAKE,
        X_SYM_VAR, X_SYM_ASSUME, X_SYM_ASSERT, X_SYM_REACH, X_SYM_PARAM, X_SYM_OBS, X_SYM_OBSS, X_SYM_NATIVE, X_SYM_CONC, X_SYM_END, X_SYM_DECIDE, X_SYM_EXPECT, X_SYM_PRINT, X_SYM_FAIL, X_SYM_ISSYM, X_SYM_ITE,
        X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_FSHL, X_FSHR, X_SADDO, X_SSUBO, X_SMULO, X_UADDO, X_USUBO, X_UMULO,
        X_USUBS, X_UADDS, X_SADDS, X_SSUBS, X_EXPECT, X_OBJSIZE, X_ISCONST, X_TYPEID, X_TRAP, X_STACKSAVE, X_FABS, X_CEIL, X_FLOOR, X_ERRNO, X_GUARD_ACQ, X_FMULADD, X_TYPEEQ, X_ISFPCLASS, X_LDEXP, X_BITREV, X_VASTART, X_EXC_INIT, X_EP_FROM
    };
    void initExt() {
        static const std::map<std::string, X> m = {
            {"malloc", X_MALLOC}, {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"_ZnwmRKSt9nothrow_t", X_MALLOC}, {"_ZnamRKSt9nothrow_t", X_MALLOC},
            {"_ZnwmSt11align_val_t", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdaPv", X_FREE},
            {"_ZdlPvm", X_FREE}, {"_ZdaPvm", X_FREE}, {"_ZdlPvmSt11align_val_t", X_FREE}, {"_ZdlPvSt11align_val_t", X_FREE}, {"_ZdlPvRKSt9nothrow_t", X_FREE},
            {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"llvm.memcpy", X_MEMCPY}, {"llvm.memmove", X_MEMCPY}, {"llvm.memcpy.inline", X_MEMCPY},
            {"memset", X_MEMSET}, {"llvm.memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_BCMP},
            {"abort", X_ABORT}, {"exit", X_EXIT}, {"_exit", X_EXIT}, {"_ZSt9terminatev", X_TERMINATE}, {"__cxa_atexit", X_RET0}, {"atexit", X_RET0},
            {"__cxa_allocate_exception", X_CXA_ALLOC}, {"__cxa_free_exception", X_CXA_FREE}, {"__cxa_throw", X_CXA_THROW}, {"__cxa_begin_catch", X_CXA_BEGIN},
            {"__cxa_end_catch", X_CXA_END}, {"__cxa_rethrow", X_CXA_RETHROW}, {"__cxa_get_exception_ptr", X_CXA_GETPTR}, {"__dynamic_cast", X_DYNCAST},
            {"__cxa_pure_virtual", X_PUREVIRT}, {"__cxa_deleted_virtual", X_PUREVIRT}, {"__cxa_bad_cast", X_BADCAST}, {"__cxa_bad_typeid", X_BADCAST},
            {"_ZSt18uncaught_exceptionv", X_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", X_UNCAUGHT},
            {"__cxa_init_primary_exception", X_EXC_INIT}, {"_ZNSt15__exception_ptr13exception_ptrC1EPv", X_EP_FROM}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", X_EP_FROM},
            {"_ZSt17current_exceptionv", X_EP_CURRENT}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", X_EP_RETHROW},
            {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", X_EP_ADDREF}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", X_EP_RELEASE},
            {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", X_EP_COPY}, {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", X_EP_COPY},
            {"_ZNSt15__exception_ptr13exception_ptrD1Ev", X_EP_DTOR}, {"_ZNSt15__exception_ptr13exception_ptrD2Ev", X_EP_DTOR},
            {"symx_var", X_SYM_VAR}, {"symx_assume_", X_SYM_ASSUME}, {"symx_assert_", X_SYM_ASSERT}, {"symx_reach", X_SYM_REACH}, {"symx_param", X_SYM_PARAM},
            {"symx_observe_", X_SYM_OBS}, {"symx_observe_str", X_SYM_OBSS}, {"symx_native", X_SYM_NATIVE}, {"symx_concrete_", X_SYM_CONC}, {"symx_end", X_SYM_END},
            {"symx_print", X_SYM_PRINT}, {"symx_is_symbolic_", X_SYM_ISSYM}, {"symx_ite_", X_SYM_ITE},
            {"llvm.umin", X_UMIN}, {"llvm.umax", X_UMAX}, {"llvm.smin", X_SMIN}, {"llvm.smax", X_SMAX}, {"llvm.abs", X_ABS}, {"llvm.ctpop", X_CTPOP},
            {"llvm.ctlz", X_CTLZ}, {"llvm.cttz", X_CTTZ}, {"llvm.bswap", X_BSWAP}, {"llvm.fshl", X_FSHL}, {"llvm.fshr", X_FSHR}, {"llvm.bitreverse", X_BITREV},
            {"llvm.sadd.with.overflow", X_SADDO}, {"llvm.ssub.with.overflow", X_SSUBO}, {"llvm.smul.with.overflow", X_SMULO},
            {"llvm.uadd.with.overflow", X_UADDO}, {"llvm.usub.with.overflow", X_USUBO}, {"llvm.umul.with.overflow", X_UMULO},
            {"llvm.usub.sat", X_USUBS}, {"llvm.uadd.sat", X_UADDS}, {"llvm.sadd.sat", X_SADDS}, {"llvm.ssub.sat", X_SSUBS},
            {"llvm.expect", X_EXPECT}, {"llvm.launder.invariant.group", X_EXPECT}, {"llvm.strip.invariant.group", X_EXPECT}, {"llvm.threadlocal.address", X_EXPECT},
            {"llvm.ptr.annotation", X_EXPECT}, {"llvm.objectsize", X_OBJSIZE}, {"llvm.is.constant", X_ISCONST}, {"llvm.eh.typeid.for", X_TYPEID},
            {"llvm.trap", X_TRAP}, {"llvm.ubsantrap", X_TRAP}, {"llvm.stacksave", X_STACKSAVE}, {"llvm.va_start", X_VASTART}, {"llvm.va_end", X_VOID}, {"llvm.fabs", X_FABS}, {"llvm.ceil", X_CEIL}, {"llvm.floor", X_FLOOR},
            {"ceil", X_CEIL}, {"ceilf", X_CEIL}, {"floor", X_FLOOR}, {"floorf", X_FLOOR}, {"__errno_location", X_ERRNO}, {"llvm.fmuladd", X_FMULADD},
            {"pthread_mutex_lock", X_RET0}, {"pthread_mutex_unlock", X_RET0}, {"pthread_mutex_init", X_RET0}, {"pthread_mutex_destroy", X_RET0},
            {"pthread_mutex_trylock", X_RET0}, {"getenv", X_RET0}, {"fflush", X_RET0}, {"fprintf", X_RET0}, {"printf", X_RET0}, {"vfprintf", X_RET0}, {"__cxa_guard_acquire", X_GUARD_ACQ}, {"__cxa_guard_release", X_VOID}, {"__cxa_guard_abort", X_VOID},
            {"llvm.invariant.start", X_RET0}, {"__cxa_thread_atexit", X_RET0}, {"pthread_self", X_RET0},
        };
        extKind.resize(g_extNames.size(), X_NONE);
        for (size_t i = 0; i < g_extNames.size(); ++i) { auto it = m.find(g_extNames[i]); extKind[i] = it == m.end() ? X_NONE : it->second; }
    }
    void retV(Value v) { completeCall(&v, 1); }
    void retVoid() { completeCall(nullptr, 0); }
    static double asD(u64 c, unsigned w) { if (w == 32) { float f; u32 x = (u32)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
    static u64 frD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 c; memcpy(&c, &d, 8); return c; }
    u64 concF(Value v) { if (v.e) { return concretize(v, v.e->w); } return v.c; }

    void destroyExcIfDone(Exc *x, bool viaCall) {
        // returns with the frame for the destructor pushed if needed
        u64 ptr = x->ptr, dtor = x->dtor;
        for (size_t i = 0; i < S->excs.size(); ++i) if (S->excs[i].ptr == ptr) { S->excs.erase(S->excs.begin() + (long)i); break; }
        if (!dtor) { if (viaCall) retVoid(); return; }
        auto it = prog.byAddr.find(dtor);
        if (it == prog.byAddr.end() || it->second->decl) { if (viaCall) retVoid(); return; }
        // the destructor frame returns into the current call instruction (void result)
        pushFrame(it->second);
        if (!it->second->params.empty()) F->regs[it->second->params[0]] = V(ptr);
    }
    void external(int id, const Inst &in, Func *f) {
        if ((size_t)id >= extKind.size()) initExt();
        auto A = [&](int i) { return get(in.ops[i]); };
        switch (extKind[id]) {
            case X_MALLOC: { u64 n = concretize(A(0), 64); if (n > (64u << 20)) incomplete("allocation of more than 64 MB"); retV(V(S->allocHeap(n))); return; }
            case X_CALLOC: { u64 n = concretize(A(0), 64), k = concretize(A(1), 64); if (n * k > (64u << 20)) incomplete("allocation of more than 64 MB"); retV(V(S->allocHeap(n * k, OK_HEAP, 0))); return; }
            case X_REALLOC: {
                u64 p = concPtr(A(0)), n = concretize(A(1), 64);
                if (n > (64u << 20)) incomplete("allocation of more than 64 MB");
                u64 q = S->allocHeap(n);
                if (p) { Obj *o = S->find(p); if (!o || o->kind != OK_HEAP || o->base != p) error("memory", "realloc of invalid pointer"); copyMem(q, p, std::min(n, o->size)); S->freeObj(S->find(p)); }
                retV(V(q));
                return;
            }
            case X_FREE: {
                u64 p = concPtr(A(0));
                if (p) {
                    Obj *o = S->find(p);
                    if (!o) error("memory", "double free");
                    if (o->kind != OK_HEAP || o->base != p) error("memory", "free of invalid pointer");
                    S->freeObj(o);
                }
                retVoid();
                return;
            }
            case X_MEMCPY: {
                u64 n = concretize(A(2), 64); u64 d = concPtr(A(0)), s = concPtr(A(1));
                copyMem(d, s, n);
                if (I->dst >= 0) retV(V(d)); else retVoid();
                return;
            }
            case X_MEMSET: {
                u64 n = concretize(A(2), 64); u64 d = concPtr(A(0));
                Value v = A(1);
                if (v.e && v.e->w > 8) v = VE(mkExtract(v.e, 0, 8)); else v.c &= 0xff;
                setMem(d, v, n);
                if (I->dst >= 0) retV(V(d)); else retVoid();
                return;
            }
            case X_MEMCMP: case X_BCMP: {
                u64 n = concretize(A(2), 64); u64 a = concPtr(A(0)), b = concPtr(A(1));
                if (n) { checkAcc(a, n, false); checkAcc(b, n, false); }
                E r = mkConst(0, 32);
                for (u64 i = n; i-- > 0;) {
                    Value x = readMem(a + i, 8), y = readMem(b + i, 8);
                    if (!x.e && !y.e) { if (x.c != y.c) r = mkConst((u64)(i64)(x.c < y.c ? -1 : 1), 32); continue; }
                    E ex_ = ex(x, 8), ey = ex(y, 8);
                    E eq = mkEq(ex_, ey);
                    if (extKind[id] == X_BCMP) r = mkIte(eq, r, mkConst(1, 32));
                    else r = mkIte(eq, r, mkIte(mkBin(K_ULT, ex_, ey), mkConst((u64)-1, 32), mkConst(1, 32)));
                }
                retV(VE(r));
                return;
            }
            case X_RET0: if (in.dst >= 0) retV(V(0)); else retVoid(); return;
            case X_GUARD_ACQ: { u64 p = concPtr(A(0)); Value v = readMem(p, 8); u64 r = v.c == 0; if (r) writeMem(p, 8, V(1)); retV(V(r)); return; }
            case X_VOID: retVoid(); return;
            case X_ABORT: error("abort", "abort called");
            case X_EXIT: pathDone("exit");
            case X_TERMINATE: error("terminate", "std::terminate called");
            case X_TRAP: error("trap", "trap executed");
            case X_CXA_ALLOC: { u64 n = concretize(A(0), 64); u64 p = S->allocHeap(n, OK_EXC); S->excs.push_back({p, 0, 0, 0, 0}); retV(V(p)); return; }
            case X_CXA_FREE: retVoid(); return;
            case X_CXA_THROW: {
                u64 p = A(0).c;
                Exc *x = findExc(p);
                if (!x) error("memory", "throw of unknown object");
                x->ti = A(1).c; x->dtor = A(2).c; x->refs = 1;
                if (cfg.trace) fprintf(stderr, "throw at %s\n", where().c_str());
                throwExc(p);
                return;
            }
            case X_CXA_BEGIN: {
                u64 p = A(0).c;
                Exc *x = findExc(p);
                if (!x) error("memory", "catch of unknown object");
                x->handlers = x->handlers < 0 ? -x->handlers + 1 : x->handlers + 1;
                if (S->uncaught) --S->uncaught;
                if (S->caught.empty() || S->caught.back() != p) S->caught.push_back(p);
                retV(V(p + (u64)lastAdjust(p)));
                return;
            }
            case X_CXA_GETPTR: retV(V(A(0).c)); return;
            case X_CXA_END: {
                if (S->caught.empty()) { retVoid(); return; }
                u64 p = S->caught.back();
                Exc *x = findExc(p);
                if (!x) { S->caught.pop_back(); retVoid(); return; }
                if (x->handlers < 0) { if (++x->handlers == 0) S->caught.pop_back(); retVoid(); return; }
                if (--x->handlers == 0) { S->caught.pop_back(); if (--x->refs == 0) { destroyExcIfDone(x, true); return; } }
                retVoid();
                return;
            }
            case X_CXA_RETHROW: {
                if (S->caught.empty()) error("terminate", "rethrow without exception");
                u64 p = S->caught.back();
                Exc *x = findExc(p);
                // mark as rethrown so that the pending end_catch does not destroy it
                x->handlers = -x->handlers;
                throwExc(p);
                return;
            }
            case X_UNCAUGHT: retV(V(S->uncaught)); return;
            case X_EP_CURRENT: {
                u64 dst = A(0).c; // sret
                u64 p = S->caught.empty() ? 0 : S->caught.back();
                if (p) ++findExc(p)->refs;
                writeMem(dst, 64, V(p));
                retVoid();
                return;
            }
            case X_EP_RETHROW: {
                u64 h = A(0).c; // pointer to exception_ptr
                u64 p = readMem(h, 64).c;
                Exc *x = findExc(p);
                if (!x) error("terminate", "rethrow of null exception_ptr");
                ++x->refs;
                throwExc(p);
                return;
            }
            case X_EXC_INIT: {
                Exc *x = findExc(A(0).c);
                if (!x) error("memory", "unknown exception object");
                x->ti = A(1).c; x->dtor = A(2).c;
                retV(V(x->ptr));
                return;
            }
            case X_EP_FROM: { u64 p = A(1).c; writeMem(A(0).c, 64, V(p)); if (p) { Exc *x = findExc(p); if (x) ++x->refs; } retVoid(); return; }
            case X_EP_ADDREF: { u64 p = readMem(A(0).c, 64).c; if (p) { Exc *x = findExc(p); if (x) ++x->refs; } retVoid(); return; }
            case X_EP_COPY: { u64 p = readMem(A(1).c, 64).c; writeMem(A(0).c, 64, V(p)); if (p) { Exc *x = findExc(p); if (x) ++x->refs; } retVoid(); return; }
            case X_EP_RELEASE: case X_EP_DTOR: {
                u64 p = readMem(A(0).c, 64).c;
                if (extKind[id] == X_EP_RELEASE) writeMem(A(0).c, 64, V(0));
                if (p) { Exc *x = findExc(p); if (x && --x->refs == 0) { destroyExcIfDone(x, true); return; } }
                retVoid();
                return;
            }
            case X_DYNCAST: {
                u64 p = concPtr(A(0)), dst = A(2).c;
                u64 vt = readMem(p, 64).c;
                i64 top = (i64)readMem(vt - 16, 64).c;
                u64 ti = readMem(vt - 8, 64).c;
                std::vector<std::pair<u64, i64>> b;
                basesOf(ti, 0, b);
                u64 r = 0; int cnt = 0;
                for (auto &x : b) if (x.first == dst) { r = p + (u64)top + (u64)x.second; ++cnt; }
                if (cnt > 1) incomplete("ambiguous dynamic_cast");
                retV(V(r));
                return;
            }
            case X_PUREVIRT: error("abort", "pure virtual call");
            case X_BADCAST: error("abort", "bad cast");
            case X_SYM_VAR: {
                std::string nm = cstr(A(0).c);
                unsigned w = (unsigned)A(1).c;
                i64 lo = (i64)A(2).c, hi = (i64)A(3).c;
                bool sg = A(4).c != 0;
                int dup = 0;
                for (auto e : S->inputs) { auto &n = g_vars[e->aux].name; if (n == nm || (n.size() > nm.size() && n.compare(0, nm.size(), nm) == 0 && n[nm.size()] == '#')) ++dup; }
                if (dup) nm += "#" + std::to_string(dup);
                std::string key = nm + "|" + std::to_string(w) + "|" + std::to_string(lo) + "|" + std::to_string(hi) + "|" + std::to_string(sg);
                auto it = varByKey.find(key);
                if (it == varByKey.end()) it = varByKey.insert({key, mkVar(nm, w, lo, hi, sg, true)}).first;
                E v = it->second;
                S->inputs.push_back(v);
                if (lo == hi) { S->fixed[v->aux] = (u64)lo & mask64(w); }
                E r = w == 64 ? v : sg ? mkSExt(v, 64) : mkZExt(v, 64);
                if (lo == hi) retV(V((u64)lo & (sg ? ~0ULL : mask64(w)))); else retV(VE(r));
                return;
            }
            case X_SYM_ASSUME: {
                Value c = A(0);
                if (!c.e) { if (!c.c) { ++res.pathsAssume; endPath(); } retVoid(); return; }
                E b = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
                if (!evalExpr(b, S->model)) {
                    Model m;
                    if (check(b, m) != SAT) { ++res.pathsAssume; endPath(); }
                    S->model = m;
                }
                addPC(S, b);
                retVoid();
                return;
            }
            case X_SYM_ASSERT: {
                Value c = A(0);
                std::string label = cstr(A(1).c);
                ++res.asserts[label];
                if (!c.e) {
                    if (!c.c) { violation("assert", label, S->model); ++res.pathsError; endPath(); }
                    ++res.assertProved[label];
                    retVoid();
                    return;
                }
                E b = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
                if (b->isConst()) { if (!b->c) { violation("assert", label, S->model); ++res.pathsError; endPath(); } ++res.assertProved[label]; retVoid(); return; }
                ++res.assertQueries[label];
                if (!evalExpr(b, S->model)) {
                    violation("assert", label, S->model);
                    Model m;
                    if (check(b, m) != SAT) { ++res.pathsError; endPath(); }
                    S->model = m;
                } else {
                    Model m;
                    Res r = check(mkNot(b), m);
                    if (r == SAT) violation("assert", label, m);
                    else if (r == UNSAT) ++res.assertProved[label];
                }
                addPC(S, b);
                retVoid();
                return;
            }
            case X_SYM_REACH: ++res.reach[cstr(A(0).c)]; retVoid(); return;
            case X_SYM_PARAM: { auto it = cfg.params.find(cstr(A(0).c)); retV(V((u64)(it == cfg.params.end() ? (i64)A(1).c : it->second))); return; }
            case X_SYM_OBS: { Obs o; o.name = cstr(A(0).c); o.v.push_back(A(1)); o.w = 64; o.str = false; S->obs.push_back(o); retVoid(); return; }
            case X_SYM_OBSS: {
                Obs o; o.name = cstr(A(0).c); o.str = true; o.w = 8;
                u64 p = concPtr(A(1)), n = concretize(A(2), 64);
                for (u64 i = 0; i < n; ++i) o.v.push_back(readMem(p + i, 8));
                S->obs.push_back(o);
                retVoid();
                return;
            }
            case X_SYM_NATIVE: retV(V(0)); return;
            case X_SYM_CONC: retV(V(concretize(A(0), 64))); return;
            case X_SYM_ISSYM: retV(V(A(0).e != nullptr)); return;
            case X_SYM_ITE: { Value c = A(0); if (!c.e) { retV(c.c ? A(1) : A(2)); return; } retV(VE(mkIte(mkNot(mkEq(c.e, mkConst(0, c.e->w))), ex(A(1), 64), ex(A(2), 64)))); return; }
            case X_SYM_END: pathDone("end");
            case X_SYM_PRINT: { if (cfg.trace || getenv("SYMX_PRINT")) { u64 p = concPtr(A(0)), n = concretize(A(1), 64); std::string s; for (u64 i = 0; i < n; ++i) { Value b = readMem(p + i, 8); s += b.e ? '?' : (char)b.c; } fprintf(stderr, "%s\n", s.c_str()); } retVoid(); return; }
            case X_UMIN: case X_UMAX: case X_SMIN: case X_SMAX: {
                unsigned w = in.w;
                int n = in.n;
                std::vector<Value> r;
                for (int i = 0; i < n; ++i) {
                    Value a = A(i), b = A(n + i);
                    if (!a.e && !b.e) {
                        i64 x = sext64(a.c, w), y = sext64(b.c, w);
                        switch (extKind[id]) {
                            case X_UMIN: r.push_back(a.c < b.c ? a : b); break;
                            case X_UMAX: r.push_back(a.c > b.c ? a : b); break;
                            case X_SMIN: r.push_back(x < y ? a : b); break;
                            default: r.push_back(x > y ? a : b); break;
                        }
                    } else {
                        E x = ex(a, w), y = ex(b, w);
                        bool mn = extKind[id] == X_UMIN || extKind[id] == X_SMIN;
                        bool us = extKind[id] == X_UMIN || extKind[id] == X_UMAX;
                        E c = mkBin(us ? K_ULT : K_SLT, x, y);
                        r.push_back(VE(mn ? mkIte(c, x, y) : mkIte(c, y, x)));
                    }
                }
                completeCall(r.data(), n);
                return;
            }
            case X_ABS: {
                unsigned w = in.w;
                Value a = A(0);
                if (!a.e) { i64 x = sext64(a.c, w); retV(V((u64)(x < 0 ? -(u64)x : (u64)x) & mask64(w))); return; }
                E x = ex(a, w);
                retV(VE(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x)));
                return;
            }
            case X_CTPOP: { Value a = A(0); if (a.e && a.e->w <= 64) { E r = mkConst(0, a.e->w); for (unsigned i = 0; i < a.e->w; ++i) r = mkBin(K_ADD, r, mkZExt(mkExtract(a.e, i, 1), a.e->w)); retV(VE(r)); return; } if (a.e) incomplete("wide ctpop"); retV(V((u64)__builtin_popcountll(a.c))); return; }
            case X_CTLZ: {
                Value a = A(0); unsigned w = in.w;
                if (a.e) {
                    E r = mkConst(w, w);
                    for (unsigned i = 0; i < w; ++i) r = mkIte(mkEq(mkExtract(a.e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
                    retV(VE(r)); return;
                }
                retV(V(a.c ? (u64)__builtin_clzll(a.c) - (64 - w) : w)); return;
            }
            case X_CTTZ: {
                Value a = A(0); unsigned w = in.w;
                if (a.e) {
                    E r = mkConst(w, w);
                    for (unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(a.e, i, 1), mkConst(1, 1)), mkConst(i, w), r);
                    retV(VE(r)); return;
                }
                retV(V(a.c ? (u64)__builtin_ctzll(a.c) : w)); return;
            }
            case X_BSWAP: {
                Value a = A(0); unsigned w = in.w;
                if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((a.c >> i) & 0xff) << (w - 8 - i); retV(V(r)); return; }
                E r = mkExtract(a.e, 0, 8);
                for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a.e, i, 8));
                retV(VE(r)); return;
            }
            case X_FSHL: case X_FSHR: {
                unsigned w = in.w;
                Value a = A(0), b = A(1), c = A(2);
                if (c.e || w > 64) incomplete("symbolic funnel shift");
                unsigned s = (unsigned)(c.c % w);
                bool left = extKind[id] == X_FSHL;
                if (s == 0) { retV(left ? a : b); return; }
                unsigned l = left ? s : w - s; // (a << l) | (b >> (w - l))
                E x = mkBin(K_OR, mkBin(K_SHL, ex(a, w), mkConst(l, w)), mkBin(K_LSHR, ex(b, w), mkConst(w - l, w)));
                retV(VE(x));
                return;
            }
            case X_SADDO: case X_SSUBO: case X_SMULO: case X_UADDO: case X_USUBO: case X_UMULO: {
                unsigned w = in.w;
                E a = ex(A(0), w), b = ex(A(1), w);
                int k = extKind[id];
                bool sg = k == X_SADDO || k == X_SSUBO || k == X_SMULO;
                Kind op = k == X_SADDO || k == X_UADDO ? K_ADD : k == X_SSUBO || k == X_USUBO ? K_SUB : K_MUL;
                unsigned w2 = op == K_MUL ? 2 * w : w + 1;
                E r = mkBin(op, a, b);
                E x = sg ? mkSExt(a, w2) : mkZExt(a, w2), y = sg ? mkSExt(b, w2) : mkZExt(b, w2);
                E o = mkNot(mkEq(mkBin(op, x, y), sg ? mkSExt(r, w2) : mkZExt(r, w2)));
                Value v[2] = {VE(r), VE(o)};
                completeCall(v, 2);
                return;
            }
            case X_USUBS: case X_UADDS: case X_SADDS: case X_SSUBS: {
                unsigned w = in.w;
                E a = ex(A(0), w), b = ex(A(1), w);
                if (extKind[id] == X_USUBS) retV(VE(mkIte(mkBin(K_ULT, a, b), mkConst(0, w), mkBin(K_SUB, a, b))));
                else if (extKind[id] == X_UADDS) { E s = mkBin(K_ADD, a, b); retV(VE(mkIte(mkBin(K_ULT, s, a), mkConst(mask128(w), w), s))); }
                else incomplete("signed saturation");
                return;
            }
            case X_EXPECT: retV(A(0)); return;
            case X_OBJSIZE: retV(V(mask64(in.w2))); return;
            case X_ISCONST: retV(V(0)); return;
            case X_TYPEID: { u64 t = A(0).c; retV(V((u64)(t ? typeId(t) : 0x7ffffffe))); return; }
            case X_VASTART: {
                u64 a = concPtr(A(0));
                writeMem(a, 32, V(48));
                writeMem(a + 4, 32, V(176));
                writeMem(a + 8, 64, V(F->va));
                writeMem(a + 16, 64, V(0));
                retVoid();
                return;
            }
            case X_STACKSAVE: retV(V(0)); return;
            case X_FABS: case X_CEIL: case X_FLOOR: {
                unsigned w = in.w ? in.w : (I->ty ? I->ty->leaves[0].w : 64);
                if (I->ty) w = I->ty->leaves[0].w;
                double d = asD(concF(A(0)), w);
                d = extKind[id] == X_FABS ? std::fabs(d) : extKind[id] == X_CEIL ? std::ceil(d) : std::floor(d);
                retV(V(frD(d, w)));
                return;
            }
            case X_FMULADD: { unsigned w = I->ty->leaves[0].w; retV(V(frD(asD(concF(A(0)), w) * asD(concF(A(1)), w) + asD(concF(A(2)), w), w))); return; }
            case X_ERRNO: { if (!S->errnoAddr) S->errnoAddr = S->allocHeap(4, OK_GLOBAL, 0); retV(V(S->errnoAddr)); return; }
            default: break;
        }
        std::string nm = g_extNames[id];
        incomplete("external function " + nm + " (" + llvm::demangle(nm) + ")");
    }
    i64 lastAdjust(u64 p) {
        // adjust for the handler type: the enclosing landing pad's selector identifies the catch clause
        Exc *x = findExc(p);
        if (!x) return 0;
        // find the clause by looking at the most recent landing pad of this frame: approximate by scanning all clauses
        // of landing pads in this function that match and yield a non-zero offset is ambiguous, so bases at offset
        // zero are assumed (checked here)
        std::vector<std::pair<u64, i64>> b;
        basesOf(x->ti, 0, b);
        for (auto &t : b) if (t.second != 0) incomplete("exception type with base at non-zero offset");
        return 0;
    }
    // }}}
    // {{{ instructions
    Value bin(Kind k, unsigned w, Value a, Value b) {
        if (!a.e && !b.e && w <= 64) {
            u64 x = a.c, y = b.c, m = mask64(w);
            switch (k) {
                case K_ADD: return V((x + y) & m);
                case K_SUB: return V((x - y) & m);
                case K_MUL: return V((x * y) & m);
                case K_AND: return V(x & y);
                case K_OR: return V(x | y);
                case K_XOR: return V(x ^ y);
                case K_SHL: return V(y >= w ? 0 : (x << y) & m);
                case K_LSHR: return V(y >= w ? 0 : x >> y);
                case K_ASHR: return V((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)) & m);
                case K_UDIV: if (!y) error("division", "division by zero"); return V(x / y);
                case K_UREM: if (!y) error("division", "division by zero"); return V(x % y);
                case K_SDIV: case K_SREM: {
                    if (!y) error("division", "division by zero");
                    i64 p = sext64(x, w), q = sext64(y, w);
                    if (q == -1 && p == sext64(1ULL << (w - 1), w)) error("division", "signed division overflow");
                    return V((u64)(k == K_SDIV ? p / q : p % q) & m);
                }
                default: break;
            }
        }
        E x = ex(a, w), y = ex(b, w);
        if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
            E bad = mkEq(y, mkConst(0, w));
            if (decide(bad)) error("division", "division by zero");
            if (k == K_SDIV || k == K_SREM) {
                E ov = mkAnd(mkEq(y, mkConst(mask128(w), w)), mkEq(x, mkConst((u128)1 << (w - 1), w)));
                if (decide(ov)) error("division", "signed division overflow");
            }
        }
        return VE(mkBin(k, x, y));
    }
    Value icmp(unsigned pred, unsigned w, Value a, Value b) {
        if (!a.e && !b.e && w <= 64) {
            u64 x = a.c, y = b.c;
            i64 p = sext64(x, w), q = sext64(y, w);
            switch (pred) {
                case CI::ICMP_EQ: return V(x == y);
                case CI::ICMP_NE: return V(x != y);
                case CI::ICMP_UGT: return V(x > y);
                case CI::ICMP_UGE: return V(x >= y);
                case CI::ICMP_ULT: return V(x < y);
                case CI::ICMP_ULE: return V(x <= y);
                case CI::ICMP_SGT: return V(p > q);
                case CI::ICMP_SGE: return V(p >= q);
                case CI::ICMP_SLT: return V(p < q);
                case CI::ICMP_SLE: return V(p <= q);
            }
        }
        E x = ex(a, w), y = ex(b, w);
        switch (pred) {
            case CI::ICMP_EQ: return VE(mkEq(x, y));
            case CI::ICMP_NE: return VE(mkNot(mkEq(x, y)));
            case CI::ICMP_UGT: return VE(mkBin(K_ULT, y, x));
            case CI::ICMP_UGE: return VE(mkBin(K_ULE, y, x));
            case CI::ICMP_ULT: return VE(mkBin(K_ULT, x, y));
            case CI::ICMP_ULE: return VE(mkBin(K_ULE, x, y));
            case CI::ICMP_SGT: return VE(mkBin(K_SLT, y, x));
            case CI::ICMP_SGE: return VE(mkBin(K_SLE, y, x));
            case CI::ICMP_SLT: return VE(mkBin(K_SLT, x, y));
            default: return VE(mkBin(K_SLE, x, y));
        }
    }
    bool fcmp(unsigned p, double a, double b) {
        bool un = std::isnan(a) || std::isnan(b);
        switch (p) {
            case CI::FCMP_FALSE: return false;
            case CI::FCMP_OEQ: return !un && a == b; case CI::FCMP_OGT: return !un && a > b; case CI::FCMP_OGE: return !un && a >= b;
            case CI::FCMP_OLT: return !un && a < b; case CI::FCMP_OLE: return !un && a <= b; case CI::FCMP_ONE: return !un && a != b;
            case CI::FCMP_ORD: return !un; case CI::FCMP_UNO: return un;
            case CI::FCMP_UEQ: return un || a == b; case CI::FCMP_UGT: return un || a > b; case CI::FCMP_UGE: return un || a >= b;
            case CI::FCMP_ULT: return un || a < b; case CI::FCMP_ULE: return un || a <= b; case CI::FCMP_UNE: return un || a != b;
            default: return true;
        }
    }
    void step() {
        const Inst &in = *I;
        switch (in.op) {
            case O_BIN: {
                if (in.n == 1) { Value v = bin((Kind)in.sub, in.w, get(in.ops[0]), get(in.ops[1])); set(in.dst, v); }
                else { tmp.clear(); std::vector<Value> r; for (int i = 0; i < in.n; ++i) r.push_back(bin((Kind)in.sub, in.w, get(in.ops[i]), get(in.ops[in.n + i]))); for (int i = 0; i < in.n; ++i) set(in.dst + i, r[i]); }
                ++F->pc;
                return;
            }
            case O_ICMP:
                for (int i = 0; i < in.n; ++i) set(in.dst + i, icmp(in.sub, in.w, get(in.ops[i]), get(in.ops[in.n + i])));
                ++F->pc;
                return;
            case O_FBIN: {
                for (int i = 0; i < in.n; ++i) {
                    double a = asD(concF(get(in.ops[i])), in.w), b = asD(concF(get(in.ops[in.n + i])), in.w), r;
                    switch (in.sub) { case '+': r = a + b; break; case '-': r = a - b; break; case '*': r = a * b; break; default: r = a / b; }
                    set(in.dst + i, V(frD(r, in.w)));
                }
                ++F->pc;
                return;
            }
            case O_FNEG: for (int i = 0; i < in.n; ++i) set(in.dst + i, V(frD(-asD(concF(get(in.ops[i])), in.w), in.w))); ++F->pc; return;
            case O_FCMP: for (int i = 0; i < in.n; ++i) set(in.dst + i, V(fcmp(in.sub, asD(concF(get(in.ops[i])), in.w), asD(concF(get(in.ops[in.n + i])), in.w)))); ++F->pc; return;
            case O_FPCONV:
                for (int i = 0; i < in.n; ++i) {
                    Value a = get(in.ops[i]);
                    u64 c = concF(a), r;
                    switch (in.sub) {
                        case 's': r = (u64)(i64)asD(c, in.w) & mask64(in.w2); break;
                        case 'u': r = (u64)asD(c, in.w) & mask64(in.w2); break;
                        case 'S': r = in.w2 == 32 ? frD((float)sext64(c, in.w), 32) : frD((double)sext64(c, in.w), 64); break;
                        case 'U': r = in.w2 == 32 ? frD((float)c, 32) : frD((double)c, 64); break;
                        default: r = frD(asD(c, in.w), in.w2); break;
                    }
                    set(in.dst + i, V(r));
                }
                ++F->pc;
                return;
            case O_TRUNC:
                for (int i = 0; i < in.n; ++i) { Value a = get(in.ops[i]); set(in.dst + i, a.e ? VE(mkExtract(a.e, 0, in.w2)) : V(a.c & mask64(in.w2))); }
                ++F->pc;
                return;
            case O_ZEXT:
                for (int i = 0; i < in.n; ++i) {
                    Value a = get(in.ops[i]);
                    if (in.w2 > 64) set(in.dst + i, Value{0, mkZExt(ex(a, in.w), in.w2)});
                    else set(in.dst + i, a.e ? VE(mkZExt(a.e, in.w2)) : a);
                }
                ++F->pc;
                return;
            case O_SEXT:
                for (int i = 0; i < in.n; ++i) {
                    Value a = get(in.ops[i]);
                    if (in.w2 > 64) set(in.dst + i, Value{0, mkSExt(ex(a, in.w), in.w2)});
                    else set(in.dst + i, a.e ? VE(mkSExt(a.e, in.w2)) : V((u64)sext64(a.c, in.w) & mask64(in.w2)));
                }
                ++F->pc;
                return;
            case O_COPY:
                if (in.ops.size() == 1) set(in.dst, get(in.ops[0]));
                else { tmp.clear(); for (auto r : in.ops) tmp.push_back(get(r)); for (size_t i = 0; i < tmp.size(); ++i) set(in.dst + (int)i, tmp[i]); }
                ++F->pc;
                return;
            case O_ALLOCA: {
                u64 n = concretize(get(in.ops[0]), 64);
                u64 a = S->allocStack((u64)in.imm[0] * n);
                set(in.dst, V(a));
                ++F->pc;
                return;
            }
            case O_LOAD: load(in); ++F->pc; return;
            case O_STORE: store(in); ++F->pc; return;
            case O_GEP: {
                Value p = get(in.ops[0]);
                u64 c = (u64)in.imm.back();
                E e = nullptr;
                for (size_t i = 1; i < in.ops.size(); ++i) {
                    Value x = get(in.ops[i]);
                    u64 sz = (u64)in.imm[2 * (i - 1)];
                    unsigned w = (unsigned)in.imm[2 * (i - 1) + 1];
                    if (!x.e) { c += sz * (u64)sext64(x.c, w); continue; }
                    E t = w < 64 ? mkSExt(x.e, 64) : w > 64 ? mkExtract(x.e, 0, 64) : x.e;
                    t = mkBin(K_MUL, t, mkConst(sz, 64));
                    e = e ? mkBin(K_ADD, e, t) : t;
                }
                if (!e && !p.e) set(in.dst, V(p.c + c));
                else {
                    if (!e) e = p.e; else if (p.e) e = mkBin(K_ADD, p.e, e); else c += p.c;
                    set(in.dst, VE(mkBin(K_ADD, e, mkConst(c, 64))));
                }
                ++F->pc;
                return;
            }
            case O_SELECT: {
                int n = in.n;
                int nc = (int)in.w2;
                std::vector<Value> r;
                for (int i = 0; i < n; ++i) {
                    Value c = get(in.ops[nc == 1 ? 0 : i]);
                    Value a = get(in.ops[nc + i]), b = get(in.ops[nc + n + i]);
                    if (!c.e) { r.push_back(c.c ? a : b); continue; }
                    if (in.ty->leaves[i].fp) { r.push_back(decide(c.e) ? a : b); continue; }
                    unsigned w = in.ty->leaves[i].w;
                    // selecting between two concrete pointers: fork, so that addresses stay concrete
                    if (w == 64 && !a.e && !b.e && a.c != b.c && isAddr(a.c) && isAddr(b.c)) { r.push_back(decide(c.e) ? a : b); continue; }
                    r.push_back(VE(mkIte(c.e, ex(a, w), ex(b, w))));
                }
                for (int i = 0; i < n; ++i) set(in.dst + i, r[i]);
                ++F->pc;
                return;
            }
            case O_BR: jump(in.e1); return;
            case O_CONDBR: {
                Value c = get(in.ops[0]);
                if (!c.e) { jump(c.c ? in.e1 : in.e2); return; }
                bool v = evalExpr(c.e, S->model) != 0;
                E other = v ? mkNot(c.e) : c.e, mine = v ? c.e : mkNot(c.e);
                Model m;
                if (!determined(c.e) && check(other, m) == SAT) {
                    auto *n = new State(*S);
                    n->model = m;
                    addPC(n, other);
                    ++res.forks;
                    ++forkAt[I];
                    // take the other edge in the copy
                    State *save = S; Frame *sf = F;
                    S = n; F = n->top();
                    jump(v ? in.e2 : in.e1);
                    S = save; F = sf;
                    work.push_back(n);
                    F = S->top();
                    addPC(S, mine);
                }
                jump(v ? in.e1 : in.e2);
                return;
            }
            case O_SWITCH: {
                Value c = get(in.ops[0]);
                if (!c.e) {
                    for (auto &k : in.cases) if ((u64)k.first == c.c) { jump(k.second); return; }
                    jump(in.e1);
                    return;
                }
                u128 v = evalExpr(c.e, S->model);
                int edge = in.e1;
                for (auto &k : in.cases) if (k.first == v) { edge = k.second; break; }
                E cond = mkBool(edge == in.e1);
                for (auto &k : in.cases) {
                    E eq = mkEq(c.e, mkConst(k.first, in.w));
                    if (edge == in.e1) { if (k.second != edge) cond = mkAnd(cond, mkNot(eq)); }
                    else if (k.second == edge) cond = mkOr(cond, eq);
                }
                if (!cond->isConst()) {
                    Model m;
                    if (check(mkNot(cond), m) == SAT) { forkWith(mkNot(cond), m); ++forkAt[I]; F = S->top(); addPC(S, cond); }
                }
                jump(edge);
                return;
            }
            case O_RET: doRet(in); return;
            case O_UNREACHABLE: error("unreachable", "unreachable code reached in " + llvm::demangle(F->f->name));
            case O_CALL: case O_INVOKE: doCall(in); return;
            case O_LANDINGPAD: ++F->pc; return;
            case O_RESUME: {
                u64 p = get(in.ops[0]).c;
                S->popFrame();
                unwindFrom(p);
                return;
            }
            case O_CMPXCHG: {
                Value p = get(in.ops[0]);
                u64 a = concPtr(p);
                unsigned w = in.ty->leaves[0].w;
                Value old = readMem(a, w);
                Value eq = icmp(CI::ICMP_EQ, w, old, get(in.ops[1]));
                Value nv = get(in.ops[2]);
                if (eq.e) nv = VE(mkIte(eq.e, ex(nv, w), ex(old, w))); else if (!eq.c) nv = old;
                writeMem(a, w, nv);
                set(in.dst, old);
                set(in.dst + 1, eq);
                ++F->pc;
                return;
            }
            case O_RMW: {
                u64 a = concPtr(get(in.ops[0]));
                Value old = readMem(a, in.w);
                Value v = get(in.ops[1]);
                writeMem(a, in.w, in.sub == 0 ? v : bin((Kind)in.sub, in.w, old, v));
                set(in.dst, old);
                ++F->pc;
                return;
            }
            case O_NOP: ++F->pc; return;
            case O_UNSUPPORTED: incomplete("unsupported instruction: " + in.txt + " in " + llvm::demangle(F->f->name));
            default: incomplete("unsupported operation");
        }
    }
    bool isAddr(u64 a) { return a >= (GLOBAL_BASE_SLOT << SLOT_SHIFT) ? S->find(a) != nullptr : prog.byAddr.count(a) != 0; }
    void unwindFrom(u64 p) { if (S->frames.empty()) error("uncaught", "uncaught exception"); unwind(p); }
    std::unordered_map<const Inst *, u64> forkAt;
    // }}}
    u64 rss() {
        FILE *f = fopen("/proc/self/statm", "r");
        if (!f) return 0;
        unsigned long a = 0, b = 0;
        if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
        fclose(f);
        return (u64)b * 4096;
    }
    void run() {
        t0 = std::chrono::steady_clock::now();
        initExt();
        auto it = prog.byName.find("main");
        if (it == prog.byName.end()) { ++res.incomplete["no main"]; return; }
        auto *init = new State();
        S = init;
        for (auto &g : prog.globals) {
            Obj *o = newObj(g.addr, g.size, g.external ? OK_EXTERN : OK_GLOBAL);
            memcpy(o->data, g.init.data(), g.size);
            o->ro = g.constant;
            S->put(o);
        }
        pushFrame(it->second, true);
        for (auto &p : F->f->params) F->regs[p] = V(0);
        for (size_t i = prog.ctors.size(); i-- > 0;) pushFrame(prog.ctors[i], true);
        work.push_back(init);
        u64 paths = 0;
        while (!work.empty() && !stop) {
            S = work.back();
            work.pop_back();
            F = S->top();
            ++paths;
            if (paths > cfg.maxPaths) { ++res.incomplete["path limit"]; delete S; break; }
            try {
                for (;;) {
                    I = &F->f->insts[F->pc];
                    ++res.insts;
                    ++S->insts;
                    if ((res.insts & 0xffff) == 0) {
                        if (elapsed() > cfg.maxTime) { ++res.incomplete["time limit"]; stop = true; break; }
                        if (res.insts > cfg.maxInsts) { ++res.incomplete["instruction limit"]; stop = true; break; }
                        if ((res.insts & 0xfffff) == 0 && rss() > cfg.maxMem) { ++res.incomplete["memory limit"]; stop = true; break; }
                    }
                    if (S->insts > cfg.maxPathInsts) { ++res.incomplete["path instruction limit"]; error("hang", "path instruction limit"); }
                    size_t nw = work.size();
                    step();
                    if (work.size() != nw) F = S->top(); // frames became shared
                }
            } catch (PathEnd &) {}
            delete S;
        }
        for (auto *s : work) delete s;
        res.wall = elapsed();
        for (auto &p : forkAt) {
            std::string s = p.first->file ? std::string(p.first->file) + ":" + std::to_string(p.first->line) : "?";
            res.branchForks[s] += p.second;
        }
    }
};
} // namespace
void execute(Program &prog, Config const &cfg, Result &res) { Exec e(prog, cfg, res); e.run(); }
} // namespace symx
