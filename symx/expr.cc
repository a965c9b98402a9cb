#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
namespace symx {
std::vector<VarInfo> g_vars;
SolverStats g_stats;
unsigned g_timeoutMs1 = 400, g_timeoutMs2 = 30000;

namespace {
// arena
std::vector<Expr *> g_all;
Expr *allocExpr() {
    static Expr *blk = nullptr;
    static size_t left = 0;
    if (!left) { left = 4096; blk = (Expr *)calloc(left, sizeof(Expr)); }
    --left;
    return blk++;
}
struct Tab {
    std::vector<Expr *> t;
    size_t n = 0;
    Tab() : t(1 << 16, nullptr) {}
    static bool same(Expr const *a, Expr const *b) {
        return a->hash == b->hash && a->k == b->k && a->w == b->w && a->aux == b->aux && a->nops == b->nops &&
               a->op[0] == b->op[0] && a->op[1] == b->op[1] && a->op[2] == b->op[2] && a->c == b->c;
    }
    Expr *find(Expr const &e) {
        size_t m = t.size() - 1, i = e.hash & m;
        while (t[i]) { if (same(t[i], &e)) return t[i]; i = (i + 1) & m; }
        return nullptr;
    }
    void insert(Expr *e) {
        if (2 * ++n > t.size()) {
            std::vector<Expr *> o(t.size() * 2, nullptr);
            o.swap(t);
            for (auto *x : o) if (x) put(x);
        }
        put(e);
    }
    void put(Expr *e) {
        size_t m = t.size() - 1, i = e->hash & m;
        while (t[i]) i = (i + 1) & m;
        t[i] = e;
    }
} *g_tab;

struct VSHash { size_t operator()(VarSet const &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x; return h; } };
std::unordered_set<VarSet, VSHash> g_varsets;
std::unordered_map<u64, const VarSet *> g_vsMerge;
const VarSet *internVS(VarSet const &v) { return &*g_varsets.insert(v).first; }
const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
const VarSet *mergeVS(const VarSet *a, const VarSet *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (a > b) std::swap(a, b);
    u64 key = ((u64)(uintptr_t)a * 0x9E3779B97F4A7C15ULL) ^ (u64)(uintptr_t)b;
    auto it = g_vsMerge.find(key);
    VarSet r;
    if (it != g_vsMerge.end()) return it->second;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    auto *p = internVS(r);
    g_vsMerge[key] = p;
    return p;
}

void fullRange(Expr &e) {
    if (e.w <= 64) {
        e.umin = 0; e.umax = mask64(e.w);
        e.smin = e.w == 64 ? INT64_MIN : -(i64)(1ULL << (e.w - 1));
        e.smax = (i64)(mask64(e.w) >> 1);
    }
}
void meetU(Expr &e, u64 lo, u64 hi) { // tighten unsigned, derive signed
    if (lo > e.umin) e.umin = lo;
    if (hi < e.umax) e.umax = hi;
}
void meetS(Expr &e, i64 lo, i64 hi) {
    if (lo > e.smin) e.smin = lo;
    if (hi < e.smax) e.smax = hi;
}
void crossRange(Expr &e) {
    u64 sb = 1ULL << (e.w - 1);
    if (e.umax < sb) meetS(e, (i64)e.umin, (i64)e.umax);
    else if (e.umin >= sb) meetS(e, sext64(e.umin, e.w), sext64(e.umax, e.w));
    if (e.smin >= 0) meetU(e, (u64)e.smin, (u64)e.smax);
    else if (e.smax < 0) meetU(e, (u64)e.smin & mask64(e.w), (u64)e.smax & mask64(e.w));
}
void computeRange(Expr &e) {
    if (e.w > 64) return;
    if (e.k == K_CONST) {
        e.umin = e.umax = (u64)e.c; e.smin = e.smax = sext64((u64)e.c, e.w);
        return;
    }
    fullRange(e);
    E a = e.op[0], b = e.op[1];
    i128 lo, hi;
    u64 M = mask64(e.w);
    auto sfit = [&](i128 l, i128 h) { if (l >= (i128)e.smin && h <= (i128)e.smax) meetS(e, (i64)l, (i64)h); };
    auto ufit = [&](i128 l, i128 h) { if (l >= 0 && h <= (i128)M) meetU(e, (u64)l, (u64)h); };
    switch (e.k) {
        case K_VAR: {
            auto &v = g_vars[e.aux];
            if (v.ranged) { if (v.isSigned) meetS(e, v.lo, v.hi); else meetU(e, (u64)v.lo, (u64)v.hi); }
            break;
        }
        case K_ADD:
            sfit((i128)a->smin + b->smin, (i128)a->smax + b->smax);
            ufit((i128)a->umin + b->umin, (i128)a->umax + b->umax);
            break;
        case K_SUB:
            sfit((i128)a->smin - b->smax, (i128)a->smax - b->smin);
            ufit((i128)a->umin - b->umax, (i128)a->umax - b->umin);
            break;
        case K_MUL: {
            i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
            lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
            sfit(lo, hi);
            u128 uh = (u128)a->umax * b->umax;
            if (uh <= M) meetU(e, a->umin * b->umin, (u64)uh);
            break;
        }
        case K_UDIV: if (b->umin > 0) meetU(e, a->umin / b->umax, a->umax / b->umin); break;
        case K_UREM: if (b->umin > 0) meetU(e, 0, std::min(a->umax, b->umax - 1)); break;
        case K_SDIV:
            if (b->smin > 0) {
                i64 c[4] = {a->smin / b->smin, a->smin / b->smax, a->smax / b->smin, a->smax / b->smax};
                meetS(e, *std::min_element(c, c + 4), *std::max_element(c, c + 4));
            }
            break;
        case K_SREM:
            if (b->smin > 0) {
                i64 m = b->smax - 1;
                meetS(e, a->smin >= 0 ? 0 : std::max(-m, a->smin), a->smax <= 0 ? 0 : std::min(m, a->smax));
            }
            break;
        case K_AND: meetU(e, 0, std::min(a->umax, b->umax)); break;
        case K_OR: {
            meetU(e, std::max(a->umin, b->umin), M);
            u64 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
            meetU(e, 0, m);
            break;
        }
        case K_XOR: {
            u64 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32;
            meetU(e, 0, m);
            break;
        }
        case K_CONCAT:
            if (a->w <= 64 && b->w <= 63) meetU(e, (a->umin << b->w) | b->umin, (a->umax << b->w) | b->umax);
            break;
        case K_EXTRACT:
            if (a->w <= 64) {
                if ((a->umin >> (e.aux)) >> (e.w - 1) >> 1 == (a->umax >> (e.aux)) >> (e.w - 1) >> 1)
                    meetU(e, (a->umin >> e.aux) & M, (a->umax >> e.aux) & M);
                if (e.aux == 0 && a->smin >= e.smin && a->smax <= e.smax) meetS(e, a->smin, a->smax);
            }
            break;
        case K_ZEXT: meetU(e, a->umin, a->umax); break;
        case K_SEXT: meetS(e, a->smin, a->smax); break;
        case K_ITE:
            a = e.op[1]; b = e.op[2];
            meetU(e, std::min(a->umin, b->umin), std::max(a->umax, b->umax));
            meetS(e, std::min(a->smin, b->smin), std::max(a->smax, b->smax));
            break;
        default: break;
    }
    crossRange(e);
}

E intern(Kind k, unsigned w, unsigned nops, E a, E b, E c, u32 aux, u128 cv) {
    Expr t;
    memset((void *)&t, 0, sizeof t);
    t.k = k; t.w = w; t.nops = nops; t.op[0] = a; t.op[1] = b; t.op[2] = c; t.aux = aux; t.c = cv;
    u64 h = k * 0x9E3779B97F4A7C15ULL + w * 0x2545F4914F6CDD1DULL + aux * 0xC2B2AE3D27D4EB4FULL + (u64)cv * 0xff51afd7ed558ccdULL + (u64)(cv >> 64);
    if (a) h = (h ^ a->id) * 0x9E3779B97F4A7C15ULL, h ^= h >> 29;
    if (b) h = (h ^ b->id) * 0xC2B2AE3D27D4EB4FULL, h ^= h >> 31;
    if (c) h = (h ^ c->id) * 0x165667B19E3779F9ULL, h ^= h >> 30;
    h ^= h >> 32;
    t.hash = (u32)h;
    if (!g_tab) g_tab = new Tab();
    if (Expr *f = g_tab->find(t)) return f;
    Expr *e = allocExpr();
    *e = t;
    e->id = (u32)g_all.size();
    g_all.push_back(e);
    if (k == K_VAR) e->vars = internVS({aux});
    else {
        e->vars = emptyVS();
        for (unsigned i = 0; i < nops; ++i) e->vars = mergeVS(e->vars, e->op[i]->vars);
    }
    computeRange(*e);
    g_tab->insert(e);
    // a singleton interval is a constant
    return e;
}
E node(Kind k, unsigned w, unsigned nops, E a, E b = nullptr, E c = nullptr, u32 aux = 0) {
    E e = intern(k, w, nops, a, b, c, aux, 0);
    if (w <= 64 && e->umin == e->umax) return mkConst(e->umin, w);
    return e;
}
bool foldBin(Kind k, unsigned w, u128 a, u128 b, u128 &r) {
    u128 M = mask128(w);
    i128 sa = sext128(a, w), sb = sext128(b, w);
    switch (k) {
        case K_ADD: r = (a + b) & M; return true;
        case K_SUB: r = (a - b) & M; return true;
        case K_MUL: r = (a * b) & M; return true;
        case K_UDIV: r = b ? a / b : M; return true;
        case K_UREM: r = b ? a % b : a; return true;
        case K_SDIV:
            if (!b) r = sa < 0 ? 1 : M;
            else if (sb == -1) r = (0 - a) & M;
            else r = (u128)(sa / sb) & M;
            return true;
        case K_SREM:
            if (!b) r = a;
            else if (sb == -1) r = 0;
            else r = (u128)(sa % sb) & M;
            return true;
        case K_AND: r = a & b; return true;
        case K_OR: r = a | b; return true;
        case K_XOR: r = a ^ b; return true;
        case K_SHL: r = b >= w ? 0 : (a << (unsigned)b) & M; return true;
        case K_LSHR: r = b >= w ? 0 : a >> (unsigned)b; return true;
        case K_ASHR: r = (u128)(sa >> (b >= w ? w - 1 : (unsigned)b)) & M; return true;
        case K_EQ: r = a == b; return true;
        case K_ULT: r = a < b; return true;
        case K_ULE: r = a <= b; return true;
        case K_SLT: r = sa < sb; return true;
        case K_SLE: r = sa <= sb; return true;
        default: return false;
    }
}
bool isZero(E e) { return e->isConst() && e->c == 0; }
bool isOnes(E e) { return e->isConst() && e->c == mask128(e->w); }
unsigned ctz128(u128 v) { u64 l = (u64)v; return l ? __builtin_ctzll(l) : 64 + __builtin_ctzll((u64)(v >> 64)); }
// number of known-zero high bits
unsigned knownLowWidth(E e) { // e < 2^n
    if (e->w <= 64) { u64 m = e->umax; return m ? 64 - __builtin_clzll(m) : 0; }
    if (e->k == K_ZEXT) return knownLowWidth(e->op[0]);
    if (e->isConst()) { u64 h = (u64)(e->c >> 64), l = (u64)e->c; return h ? 128 - __builtin_clzll(h) : l ? 64 - __builtin_clzll(l) : 0; }
    return e->w;
}
unsigned knownLowZeros(E e) {
    if (e->isConst()) return e->c ? ctz128(e->c) : e->w;
    if (e->k == K_CONCAT) { unsigned z = knownLowZeros(e->op[1]); return z == e->op[1]->w ? z + knownLowZeros(e->op[0]) : z; }
    if (e->k == K_ZEXT) { unsigned z = knownLowZeros(e->op[0]); return z; }
    return 0;
}
} // namespace
u32 numExprs() { return (u32)g_all.size(); }

E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, 0, v & mask128(w)); }
E mkVar(std::string const &name, unsigned w, i64 lo, i64 hi, bool isSigned, bool ranged) {
    g_vars.push_back({name, w, ranged, isSigned, lo, hi});
    return node(K_VAR, w, 0, nullptr, nullptr, nullptr, (u32)g_vars.size() - 1);
}
E mkNot(E a) {
    assert(a->w == 1);
    if (a->isConst()) return mkBool(!a->c);
    if (a->k == K_NOT) return a->op[0];
    if (a->k == K_ULT) return mkBin(K_ULE, a->op[1], a->op[0]);
    if (a->k == K_ULE) return mkBin(K_ULT, a->op[1], a->op[0]);
    if (a->k == K_SLT) return mkBin(K_SLE, a->op[1], a->op[0]);
    if (a->k == K_SLE) return mkBin(K_SLT, a->op[1], a->op[0]);
    return node(K_NOT, 1, 1, a);
}
static E mkExtract_(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w);
    if (lo == 0 && w == a->w) return a;
    if (a->k < K_ADD || a->nops < 2) return mkExtract_(a, lo, w);
    struct Ent { E a; unsigned lo, w; E r; };
    static thread_local Ent *memo = new Ent[1u << 16]();
    Ent &e = memo[(a->id * 0x9E3779B1u + lo * 0x85EBCA6Bu + w * 0xC2B2AE35u) >> 16];
    if (e.a == a && e.lo == lo && e.w == w) return e.r;
    E r = mkExtract_(a, lo, w);
    Ent &f = memo[(a->id * 0x9E3779B1u + lo * 0x85EBCA6Bu + w * 0xC2B2AE35u) >> 16];
    f = {a, lo, w, r};
    return r;
}
static E mkExtract_(E a, unsigned lo, unsigned w) {
    switch (a->k) {
        case K_CONST: return mkConst(a->c >> lo, w);
        case K_EXTRACT: return mkExtract(a->op[0], a->aux + lo, w);
        case K_CONCAT: {
            unsigned lw = a->op[1]->w;
            if (lo >= lw) return mkExtract(a->op[0], lo - lw, w);
            if (lo + w <= lw) return mkExtract(a->op[1], lo, w);
            return mkConcat(mkExtract(a->op[0], 0, lo + w - lw), mkExtract(a->op[1], lo, lw - lo));
        }
        case K_ZEXT: {
            unsigned ow = a->op[0]->w;
            if (lo >= ow) return mkConst(0, w);
            if (lo + w <= ow) return mkExtract(a->op[0], lo, w);
            return mkZExt(mkExtract(a->op[0], lo, ow - lo), w);
        }
        case K_SEXT: {
            unsigned ow = a->op[0]->w;
            if (lo + w <= ow) return mkExtract(a->op[0], lo, w);
            if (lo < ow) return mkSExt(mkExtract(a->op[0], lo, ow - lo), w);
            return mkSExt(mkExtract(a->op[0], ow - 1, 1), w);
        }
        case K_ITE:
            return mkIte(a->op[0], mkExtract(a->op[1], lo, w), mkExtract(a->op[2], lo, w));
        case K_AND: case K_OR: case K_XOR:
            return mkBin(a->k, mkExtract(a->op[0], lo, w), mkExtract(a->op[1], lo, w));
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0) return mkBin(a->k, mkExtract(a->op[0], 0, w), mkExtract(a->op[1], 0, w));
            break;
        default: break;
    }
    if (a->w <= 64) {
        if (lo > 0 && lo < 64 && (a->umax >> lo) == 0) return mkConst(0, w);
    }
    return node(K_EXTRACT, w, 1, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst(a->c, w);
    if (a->k == K_ZEXT) return mkZExt(a->op[0], w);
    if (a->k == K_ITE && a->op[1]->isConst() && a->op[2]->isConst()) return mkIte(a->op[0], mkZExt(a->op[1], w), mkZExt(a->op[2], w));
    return node(K_ZEXT, w, 1, a);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst((u128)sext128(a->c, a->w), w);
    if (a->k == K_SEXT) return mkSExt(a->op[0], w);
    if (a->k == K_ZEXT) return mkZExt(a->op[0], w);
    if (a->w <= 64 && a->smin >= 0) return mkZExt(a, w);
    if (a->k == K_ITE && a->op[1]->isConst() && a->op[2]->isConst()) return mkIte(a->op[0], mkSExt(a->op[1], w), mkSExt(a->op[2], w));
    return node(K_SEXT, w, 1, a);
}
E mkConcat(E h, E l) {
    unsigned w = h->w + l->w;
    if (h->isConst() && l->isConst()) return mkConst((h->c << l->w) | l->c, w);
    if (isZero(h)) return mkZExt(l, w);
    if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->op[0] == l->op[0] && h->aux == l->aux + l->w) return mkExtract(h->op[0], l->aux, w);
    if (h->k == K_EXTRACT && h->op[0] == l && h->aux == l->w) return mkExtract(l, 0, w); // cannot normally happen
    if (h->k == K_ZEXT) return mkZExt(mkConcat(h->op[0], l), w);
    if (h->k == K_SEXT && h->op[0]->w == 1 && w <= 128 && h->op[0] == mkExtract(l, l->w - 1, 1)) return mkSExt(l, w);
    if (l->k == K_CONCAT && h->k == K_EXTRACT && l->op[0]->k == K_EXTRACT && h->op[0] == l->op[0]->op[0] && h->aux == l->op[0]->aux + l->op[0]->w)
        return mkConcat(mkConcat(h, l->op[0]), l->op[1]);
    if (l->k == K_CONCAT && h->isConst() && l->op[0]->isConst()) return mkConcat(mkConcat(h, l->op[0]), l->op[1]);
    if (h->k == K_CONCAT && l->isConst() && h->op[1]->isConst()) return mkConcat(h->op[0], mkConcat(h->op[1], l));
    if (h->k == K_CONCAT && l->k == K_EXTRACT && h->op[1]->k == K_EXTRACT && h->op[1]->op[0] == l->op[0] && h->op[1]->aux == l->aux + l->w)
        return mkConcat(h->op[0], mkConcat(h->op[1], l));
    // extract of sign bits over a base
    if (h->k == K_ITE && l->k == K_ITE && h->op[0] == l->op[0])
        return mkIte(h->op[0], mkConcat(h->op[1], l->op[1]), mkConcat(h->op[2], l->op[2]));
    if (h->k == K_ITE && l->isConst() && h->op[1]->isConst() && h->op[2]->isConst())
        return mkIte(h->op[0], mkConcat(h->op[1], l), mkConcat(h->op[2], l));
    if (l->k == K_ITE && h->isConst() && l->op[1]->isConst() && l->op[2]->isConst())
        return mkIte(l->op[0], mkConcat(h, l->op[1]), mkConcat(h, l->op[2]));
    return node(K_CONCAT, w, 2, h, l);
}
E mkIte(E c, E a, E b) {
    assert(a->w == b->w && c->w == 1);
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_NOT) return mkIte(c->op[0], b, a);
    if (a->w == 1) {
        if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->k == K_ITE && a->op[0] == c) a = a->op[1];
    if (b->k == K_ITE && b->op[0] == c) b = b->op[2];
    if (a == b) return a;
    if (b->k == K_ITE && b->op[1] == a) return mkIte(mkOr(c, b->op[0]), a, b->op[2]);
    if (a->k == K_ITE && a->op[2] == b) return mkIte(mkAnd(c, a->op[0]), a->op[1], b);
    return node(K_ITE, a->w, 3, c, a, b);
}
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static E mkEqImpl(E a, E b) {
    unsigned w = a->w;
    if (a == b) return mkBool(true);
    if (b->isConst()) std::swap(a, b);
    if (w == 1) {
        if (a->isConst()) return a->c ? b : mkNot(b);
        if (a->k == K_NOT && a->op[0] == b) return mkBool(false);
        if (b->k == K_NOT && b->op[0] == a) return mkBool(false);
    }
    if (w <= 64 && (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin)) return mkBool(false);
    if (a->isConst()) {
        u128 c = a->c;
        switch (b->k) {
            case K_ADD:
                if (b->op[0]->isConst()) return mkEqImpl(mkConst(c - b->op[0]->c, w), b->op[1]);
                break;
            case K_SUB:
                if (b->op[0]->isConst()) return mkEqImpl(mkConst(b->op[0]->c - c, w), b->op[1]);
                if (c == 0) return mkEqImpl(b->op[0], b->op[1]);
                break;
            case K_XOR:
                if (b->op[0]->isConst()) return mkEqImpl(mkConst(b->op[0]->c ^ c, w), b->op[1]);
                if (c == 0) return mkEqImpl(b->op[0], b->op[1]);
                break;
            case K_ZEXT: {
                unsigned ow = b->op[0]->w;
                if (c >> ow) return mkBool(false);
                return mkEqImpl(mkConst(c, ow), b->op[0]);
            }
            case K_SEXT: {
                unsigned ow = b->op[0]->w;
                if ((sext128(c & mask128(ow), ow) & mask128(w)) != c) return mkBool(false);
                return mkEqImpl(mkConst(c, ow), b->op[0]);
            }
            case K_CONCAT:
                return mkAnd(mkEqImpl(mkConst(c >> b->op[1]->w, b->op[0]->w), b->op[0]),
                             mkEqImpl(mkConst(c, b->op[1]->w), b->op[1]));
            case K_ITE:
                if (b->op[1]->isConst() || b->op[2]->isConst())
                    return mkIte(b->op[0], mkEqImpl(a, b->op[1]), mkEqImpl(a, b->op[2]));
                break;
            case K_MUL: break;
            case K_OR: if (c == 0) return mkAnd(mkEqImpl(a, b->op[0]), mkEqImpl(a, b->op[1])); break;
            default: break;
        }
    } else {
        if (a->k == b->k && (a->k == K_ZEXT || a->k == K_SEXT) && a->op[0]->w == b->op[0]->w) return mkEqImpl(a->op[0], b->op[0]);
        if (a->k == K_ADD && b->k == K_ADD && a->op[0] == b->op[0]) return mkEqImpl(a->op[1], b->op[1]);
        if (a->k == K_ADD && a->op[1] == b) return mkEqImpl(mkConst(0, w), a->op[0]);
        if (b->k == K_ADD && b->op[1] == a) return mkEqImpl(mkConst(0, w), b->op[0]);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->op[1]->w == b->op[1]->w)
            return mkAnd(mkEqImpl(a->op[0], b->op[0]), mkEqImpl(a->op[1], b->op[1]));
        if (a->k == K_ITE && b->k == K_ITE && a->op[0] == b->op[0])
            return mkIte(a->op[0], mkEqImpl(a->op[1], b->op[1]), mkEqImpl(a->op[2], b->op[2]));
        if (a->k == K_ITE && (a->op[1] == b || a->op[2] == b)) return mkIte(a->op[0], mkEqImpl(a->op[1], b), mkEqImpl(a->op[2], b));
        if (b->k == K_ITE && (b->op[1] == a || b->op[2] == a)) return mkIte(b->op[0], mkEqImpl(a, b->op[1]), mkEqImpl(a, b->op[2]));
        if (a->id > b->id) std::swap(a, b);
    }
    return node(K_EQ, 1, 2, a, b);
}
static E mkCmp(Kind k, E a, E b) {
    unsigned w = a->w;
    bool s = k == K_SLT || k == K_SLE, strict = k == K_ULT || k == K_SLT;
    if (a == b) return mkBool(!strict);
    if (w == 1) { // booleans
        if (s) { // signed on i1: 1 is -1
            return strict ? mkAnd(a, mkNot(b)) : mkOr(a, mkNot(b));
        }
        return strict ? mkAnd(mkNot(a), b) : mkOr(mkNot(a), b);
    }
    if (w <= 64) {
        if (s) {
            if (strict ? a->smax < b->smin : a->smax <= b->smin) return mkBool(true);
            if (strict ? a->smin >= b->smax : a->smin > b->smax) return mkBool(false);
        } else {
            if (strict ? a->umax < b->umin : a->umax <= b->umin) return mkBool(true);
            if (strict ? a->umin >= b->umax : a->umin > b->umax) return mkBool(false);
        }
        // both signs known equal: signed -> unsigned
        if (s && a->smin >= 0 && b->smin >= 0) return mkCmp(strict ? K_ULT : K_ULE, a, b);
        if (!s && a->isConst() && strict && a->c == 0) return mkNot(mkEqImpl(mkConst(0, w), b)); // 0 < b
        if (!s && b->isConst() && strict && b->c == 1) return mkEqImpl(mkConst(0, w), a);         // a < 1
        if (!s && b->isConst() && !strict && b->c == 0) return mkEqImpl(b, a);
    }
    auto narrow = [&](Kind ext) {
        // both operands extended by the same kind (or constants that fit)
        unsigned ow = a->k == ext ? a->op[0]->w : b->op[0]->w;
        E x, y;
        auto conv = [&](E e) -> E {
            if (e->k == ext && e->op[0]->w == ow) return e->op[0];
            if (e->k == ext && e->op[0]->w < ow) return ext == K_ZEXT ? mkZExt(e->op[0], ow) : mkSExt(e->op[0], ow);
            if (e->isConst()) {
                u128 t = e->c & mask128(ow);
                u128 back = ext == K_ZEXT ? t : ((u128)sext128(t, ow) & mask128(w));
                if (back == e->c) return mkConst(t, ow);
            }
            return nullptr;
        };
        if (a->k == ext && b->k == ext) ow = std::max(a->op[0]->w, b->op[0]->w);
        x = conv(a); y = conv(b);
        if (!x || !y) return (E) nullptr;
        if (ext == K_ZEXT) return mkCmp(strict ? K_ULT : K_ULE, x, y);
        return mkCmp(k, x, y);
    };
    if (a->k == K_ZEXT || b->k == K_ZEXT) { if (E r = narrow(K_ZEXT)) return r; }
    if (s && (a->k == K_SEXT || b->k == K_SEXT)) { if (E r = narrow(K_SEXT)) return r; }
    if (a->k == K_ITE && b->isConst() && (a->op[1]->isConst() || a->op[2]->isConst()))
        return mkIte(a->op[0], mkCmp(k, a->op[1], b), mkCmp(k, a->op[2], b));
    if (b->k == K_ITE && a->isConst() && (b->op[1]->isConst() || b->op[2]->isConst()))
        return mkIte(b->op[0], mkCmp(k, a, b->op[1]), mkCmp(k, a, b->op[2]));
    return node(k, 1, 2, a, b);
}
// number of bits such that e is the sign extension of its low bits (an upper bound)
unsigned signedWidth(E e, int depth = 3) {
    if (e->isConst()) {
        __int128 v = (__int128)sext128(e->c, e->w);
        unsigned n = 1;
        while (n < e->w && !(v >= -((__int128)1 << (n - 1)) && v <= ((__int128)1 << (n - 1)) - 1)) ++n;
        return n;
    }
    unsigned r = e->w;
    if (e->k == K_SEXT) r = depth ? signedWidth(e->op[0], depth - 1) : e->op[0]->w;
    else if (e->k == K_ZEXT) r = e->op[0]->w + 1;
    else if (e->k == K_ITE && depth) r = std::max(signedWidth(e->op[1], depth - 1), signedWidth(e->op[2], depth - 1));
    if (e->w <= 64 && e->w > 1) {
        unsigned n = 1;
        while (n < e->w && !(e->smin >= -((i64)1 << (n - 1)) && e->smax <= ((i64)1 << (n - 1)) - 1)) ++n;
        r = std::min(r, n);
    }
    return std::min(r, e->w);
}
E mkBin(Kind k, E a, E b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    // wide arithmetic over operands that are small
    if (w > 16 && (k == K_SDIV || k == K_SREM || k == K_MUL || (w > 64 && (k == K_ADD || k == K_SUB)))) {
        unsigned wa = signedWidth(a), wb = signedWidth(b);
        unsigned n = k == K_MUL ? wa + wb : std::max(wa, wb) + 1;
        if (n < w && !(a->isConst() && b->isConst()) && n <= (w > 64 ? w - 32 : w - 8)) {
            if (w > 64 && n < 64) n = 64;
            return mkSExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
        }
    }
    if (w <= 128 && a->isConst() && b->isConst()) {
        u128 r;
        if (foldBin(k, w, a->c, b->c, r)) return mkConst(r, isCmp(k) ? 1 : w);
    }
    if (k == K_EQ) return mkEqImpl(a, b);
    if (isCmp(k)) return mkCmp(k, a, b);
    // commutative: constant first
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
    if (comm && b->isConst()) std::swap(a, b);
    // operations on ite with constant leaves
    if (k != K_AND && k != K_OR && k != K_XOR || w > 1) {
        if (a->isConst() && b->k == K_ITE && b->op[1]->isConst() && b->op[2]->isConst() && w > 1)
            return mkIte(b->op[0], mkBin(k, a, b->op[1]), mkBin(k, a, b->op[2]));
        if (b->isConst() && a->k == K_ITE && a->op[1]->isConst() && a->op[2]->isConst() && w > 1)
            return mkIte(a->op[0], mkBin(k, a->op[1], b), mkBin(k, a->op[2], b));
    }
    switch (k) {
        case K_ADD:
            if (w == 1) return mkBin(K_XOR, a, b);
            if (isZero(a)) return b;
            if (b->isConst() && isZero(b)) return a;
            if (a->isConst()) {
                if (b->k == K_ADD && b->op[0]->isConst()) return mkBin(K_ADD, mkConst(a->c + b->op[0]->c, w), b->op[1]);
                if (b->k == K_SUB && b->op[0]->isConst()) return mkBin(K_SUB, mkConst(a->c + b->op[0]->c, w), b->op[1]);
                unsigned z;
                if (b->k == K_ZEXT && a->c && (z = ctz128(a->c)) >= b->op[0]->w) return mkBin(K_OR, a, b);
            } else {
                if (a->k == K_ADD && a->op[0]->isConst()) return mkBin(K_ADD, a->op[0], mkBin(K_ADD, a->op[1], b));
                if (b->k == K_ADD && b->op[0]->isConst()) return mkBin(K_ADD, b->op[0], mkBin(K_ADD, a, b->op[1]));
                if (a->k == K_SUB && a->op[1] == b) return a->op[0];
                if (b->k == K_SUB && b->op[1] == a) return b->op[0];
                if (a->k == K_SUB && isZero(a->op[0])) return mkBin(K_SUB, b, a->op[1]);
                if (b->k == K_SUB && isZero(b->op[0])) return mkBin(K_SUB, a, b->op[1]);
                if (a->id > b->id) std::swap(a, b);
            }
            break;
        case K_SUB:
            if (w == 1) return mkBin(K_XOR, a, b);
            if (b->isConst()) return mkBin(K_ADD, mkConst(0 - b->c, w), a);
            if (a == b) return mkConst(0, w);
            if (a->k == K_ADD && a->op[0] == b) return a->op[1];
            if (a->k == K_ADD && a->op[1] == b) return a->op[0];
            if (a->k == K_ADD && b->k == K_ADD && a->op[0] == b->op[0]) return mkBin(K_SUB, a->op[1], b->op[1]);
            if (a->k == K_ADD && a->op[0]->isConst()) return mkBin(K_ADD, a->op[0], mkBin(K_SUB, a->op[1], b));
            if (b->k == K_ADD && b->op[0]->isConst()) return mkBin(K_ADD, mkConst(0 - b->op[0]->c, w), mkBin(K_SUB, a, b->op[1]));
            if (b->k == K_SUB && isZero(b->op[0])) return mkBin(K_ADD, a, b->op[1]);
            break;
        case K_MUL:
            if (w == 1) return mkBin(K_AND, a, b);
            if (a->isConst()) {
                if (a->c == 0) return a;
                if (a->c == 1) return b;
                if (isOnes(a)) return mkBin(K_SUB, mkConst(0, w), b);
                if ((a->c & (a->c - 1)) == 0) return mkBin(K_SHL, b, mkConst(ctz128(a->c), w));
            } else if (a->id > b->id) std::swap(a, b);
            break;
        case K_UDIV:
            if (b->isConst()) {
                if (b->c == 1) return a;
                if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(ctz128(b->c), w));
            }
            break;
        case K_UREM:
            if (b->isConst() && b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, mkConst(b->c - 1, w), a);
            break;
        case K_SDIV:
            if (b->isConst() && b->c == 1) return a;
            if (b->isConst() && isOnes(b)) return mkBin(K_SUB, mkConst(0, w), a);
            if (w <= 64 && a->smin >= 0 && b->smin >= 0) return mkBin(K_UDIV, a, b);
            break;
        case K_SREM:
            if (b->isConst() && (b->c == 1 || isOnes(b))) return mkConst(0, w);
            if (w <= 64 && a->smin >= 0 && b->smin >= 0) return mkBin(K_UREM, a, b);
            break;
        case K_AND:
            if (a == b) return a;
            if (a->isConst()) {
                if (a->c == 0) return a;
                if (isOnes(a)) return b;
                // contiguous mask
                unsigned z = ctz128(a->c);
                u128 t = a->c >> z;
                if ((t & (t + 1)) == 0) {
                    unsigned n = knownLowWidth(mkConst(t, 128));
                    E x = mkExtract(b, z, n);
                    if (z) x = mkConcat(x, mkConst(0, z));
                    return mkZExt(x, w);
                }
                if (b->k == K_AND && b->op[0]->isConst()) return mkBin(K_AND, mkConst(a->c & b->op[0]->c, w), b->op[1]);
                if (b->k == K_ZEXT) return mkZExt(mkBin(K_AND, mkConst(a->c, b->op[0]->w), b->op[0]), w);
                if (b->k == K_CONCAT)
                    return mkConcat(mkBin(K_AND, mkConst(a->c >> b->op[1]->w, b->op[0]->w), b->op[0]),
                                    mkBin(K_AND, mkConst(a->c, b->op[1]->w), b->op[1]));
            } else {
                if (w == 1 && (a->k == K_NOT ? a->op[0] == b : b->k == K_NOT && b->op[0] == a)) return mkBool(false);
                if (a->k == K_AND && (a->op[0] == b || a->op[1] == b)) return a;
                if (b->k == K_AND && (b->op[0] == a || b->op[1] == a)) return b;
                if (a->k == K_ZEXT && b->k == K_ZEXT && a->op[0]->w == b->op[0]->w) return mkZExt(mkBin(K_AND, a->op[0], b->op[0]), w);
                if (a->id > b->id) std::swap(a, b);
            }
            break;
        case K_OR:
            if (a == b) return a;
            if (a->isConst()) {
                if (a->c == 0) return b;
                if (isOnes(a)) return a;
                if (b->k == K_OR && b->op[0]->isConst()) return mkBin(K_OR, mkConst(a->c | b->op[0]->c, w), b->op[1]);
            } else {
                if (w == 1 && (a->k == K_NOT ? a->op[0] == b : b->k == K_NOT && b->op[0] == a)) return mkBool(true);
                if (a->k == K_OR && (a->op[0] == b || a->op[1] == b)) return a;
                if (b->k == K_OR && (b->op[0] == a || b->op[1] == a)) return b;
                if (a->id > b->id) std::swap(a, b);
            }
            // disjoint halves: concat
            if (w > 1) {
                for (int i = 0; i < 2; ++i) {
                    E hi = i ? b : a, lo = i ? a : b;
                    unsigned z = knownLowZeros(hi), n = knownLowWidth(lo);
                    if (z && z < w && n <= z) return mkConcat(mkExtract(hi, z, w - z), mkExtract(lo, 0, z));
                }
            }
            break;
        case K_XOR:
            if (a == b) return mkConst(0, w);
            if (a->isConst()) {
                if (a->c == 0) return b;
                if (w == 1) return mkNot(b);
                if (b->k == K_XOR && b->op[0]->isConst()) return mkBin(K_XOR, mkConst(a->c ^ b->op[0]->c, w), b->op[1]);
            } else {
                if (w == 1) {
                    if (a->k == K_NOT) return mkNot(mkBin(K_XOR, a->op[0], b));
                    if (b->k == K_NOT) return mkNot(mkBin(K_XOR, a, b->op[0]));
                }
                if (a->id > b->id) std::swap(a, b);
            }
            break;
        case K_SHL: case K_LSHR: case K_ASHR:
            if (isZero(a)) return a;
            if (w == 1) return isZero(b) ? a : node(k, w, 2, a, b);
            if (b->isConst()) {
                if (b->c == 0) return a;
                if (b->c >= w) { if (k != K_ASHR) return mkConst(0, w); return mkSExt(mkExtract(a, w - 1, 1), w); }
                unsigned n = (unsigned)b->c;
                if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
                E x = mkExtract(a, n, w - n);
                return k == K_LSHR ? mkZExt(x, w) : mkSExt(x, w);
            }
            break;
        default: break;
    }
    return node(k, w, 2, a, b);
}

std::string toStr(E e, int d) {
    static const char *nm[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "=", "<u", "<=u", "<s", "<=s", "concat", "extract", "zext", "sext", "ite", "not"};
    char buf[64];
    if (e->k == K_CONST) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
    if (e->k == K_VAR) return g_vars[e->aux].name;
    if (!d) return "...";
    std::string r = std::string("(") + nm[e->k];
    if (e->k == K_EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->w); r += buf; }
    for (unsigned i = 0; i < e->nops; ++i) r += " " + toStr(e->op[i], d - 1);
    return r + ")";
}

u64 Model::get(u32 i) const {
    if (i < v.size()) return v[i];
    auto &x = g_vars[i];
    if (x.ranged) {
        if (x.isSigned) return (x.lo <= 0 && 0 <= x.hi) ? 0 : (u64)x.lo & mask64(x.w);
        return (u64)x.lo & mask64(x.w);
    }
    return 0;
}
void Model::set(u32 i, u64 x) {
    while (v.size() <= i) v.push_back(get((u32)v.size()));
    v[i] = x;
}
namespace {
std::vector<u128> g_evalVal;
std::vector<u32> g_evalEpoch;
u32 g_epoch = 0;
u128 evalRec(E e, Model const &m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return (u128)(m.get(e->aux) & mask64(e->w > 64 ? 64 : e->w));
    if (g_evalEpoch[e->id] == g_epoch) return g_evalVal[e->id];
    u128 r = 0;
    switch (e->k) {
        case K_NOT: r = !evalRec(e->op[0], m); break;
        case K_ITE: r = evalRec(e->op[0], m) ? evalRec(e->op[1], m) : evalRec(e->op[2], m); break;
        case K_EXTRACT: r = (evalRec(e->op[0], m) >> e->aux) & mask128(e->w); break;
        case K_CONCAT: r = (evalRec(e->op[0], m) << e->op[1]->w) | evalRec(e->op[1], m); break;
        case K_ZEXT: r = evalRec(e->op[0], m); break;
        case K_SEXT: r = (u128)sext128(evalRec(e->op[0], m), e->op[0]->w) & mask128(e->w); break;
        default: {
            u128 a = evalRec(e->op[0], m), b = evalRec(e->op[1], m);
            foldBin(e->k, e->op[0]->w, a, b, r);
        }
    }
    g_evalEpoch[e->id] = g_epoch;
    g_evalVal[e->id] = r;
    return r;
}
} // namespace
u128 evalExpr(E e, Model const &m) {
    if (g_evalVal.size() < g_all.size()) { g_evalVal.resize(g_all.size() + 1024); g_evalEpoch.resize(g_all.size() + 1024, 0); }
    ++g_epoch;
    return evalRec(e, m);
}

// ---- Z3 -------------------------------------------------------------------------------------
namespace {
Z3_context g_ctx;
std::vector<Z3_ast> g_z3;
Z3_solver g_simple, g_tactic;
bool g_z3err = false;
void z3init() {
    if (g_ctx) return;
    Z3_config cfg = Z3_mk_config();
    g_ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(g_ctx, [](Z3_context c, Z3_error_code e) { g_z3err = true; fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); });
    g_simple = Z3_mk_simple_solver(g_ctx);
    Z3_solver_inc_ref(g_ctx, g_simple);
    Z3_tactic t = Z3_mk_tactic(g_ctx, "qfbv");
    Z3_tactic_inc_ref(g_ctx, t);
    g_tactic = Z3_mk_solver_from_tactic(g_ctx, t);
    Z3_solver_inc_ref(g_ctx, g_tactic);
}
void setTimeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(g_ctx);
    Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), ms);
    Z3_solver_set_params(g_ctx, s, p);
    Z3_params_dec_ref(g_ctx, p);
}
Z3_ast bvConst(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(g_ctx, w);
    if (w <= 64) return Z3_mk_unsigned_int64(g_ctx, (u64)v, s);
    std::string d;
    if (!v) d = "0";
    while (v) { d.push_back('0' + (int)(v % 10)); v /= 10; }
    std::reverse(d.begin(), d.end());
    return Z3_mk_numeral(g_ctx, d.c_str(), s);
}
Z3_ast conv(E e);
Z3_ast convOp(E e) {
    Z3_context c = g_ctx;
    auto B = [&](E x) { return conv(x); };
    // operand as bit-vector (booleans converted)
    auto V = [&](E x) {
        Z3_ast a = conv(x);
        if (x->w == 1) return Z3_mk_ite(c, a, bvConst(1, 1), bvConst(0, 1));
        return a;
    };
    auto toB = [&](Z3_ast a) { return Z3_mk_eq(c, a, bvConst(1, 1)); };
    if (e->w == 1) {
        switch (e->k) {
            case K_CONST: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
            case K_VAR: return Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->aux)).c_str()), Z3_mk_bool_sort(c));
            case K_NOT: return Z3_mk_not(c, B(e->op[0]));
            case K_AND: { Z3_ast a[2] = {B(e->op[0]), B(e->op[1])}; return Z3_mk_and(c, 2, a); }
            case K_OR: { Z3_ast a[2] = {B(e->op[0]), B(e->op[1])}; return Z3_mk_or(c, 2, a); }
            case K_XOR: return Z3_mk_xor(c, B(e->op[0]), B(e->op[1]));
            case K_EQ: return Z3_mk_eq(c, B(e->op[0]), B(e->op[1]));
            case K_ULT: return Z3_mk_bvult(c, V(e->op[0]), V(e->op[1]));
            case K_ULE: return Z3_mk_bvule(c, V(e->op[0]), V(e->op[1]));
            case K_SLT: return Z3_mk_bvslt(c, V(e->op[0]), V(e->op[1]));
            case K_SLE: return Z3_mk_bvsle(c, V(e->op[0]), V(e->op[1]));
            case K_EXTRACT: return toB(Z3_mk_extract(c, e->aux, e->aux, V(e->op[0])));
            case K_ITE: return Z3_mk_ite(c, B(e->op[0]), B(e->op[1]), B(e->op[2]));
            default: break;
        }
    }
    auto wrap = [&](Z3_ast a) { return e->w == 1 ? toB(a) : a; };
    switch (e->k) {
        case K_CONST: return bvConst(e->c, e->w);
        case K_VAR: return Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->aux)).c_str()), Z3_mk_bv_sort(c, e->w));
        case K_ADD: return wrap(Z3_mk_bvadd(c, V(e->op[0]), V(e->op[1])));
        case K_SUB: return wrap(Z3_mk_bvsub(c, V(e->op[0]), V(e->op[1])));
        case K_MUL: return wrap(Z3_mk_bvmul(c, V(e->op[0]), V(e->op[1])));
        case K_UDIV: return wrap(Z3_mk_bvudiv(c, V(e->op[0]), V(e->op[1])));
        case K_SDIV: return wrap(Z3_mk_bvsdiv(c, V(e->op[0]), V(e->op[1])));
        case K_UREM: return wrap(Z3_mk_bvurem(c, V(e->op[0]), V(e->op[1])));
        case K_SREM: return wrap(Z3_mk_bvsrem(c, V(e->op[0]), V(e->op[1])));
        case K_AND: return wrap(Z3_mk_bvand(c, V(e->op[0]), V(e->op[1])));
        case K_OR: return wrap(Z3_mk_bvor(c, V(e->op[0]), V(e->op[1])));
        case K_XOR: return wrap(Z3_mk_bvxor(c, V(e->op[0]), V(e->op[1])));
        case K_SHL: return wrap(Z3_mk_bvshl(c, V(e->op[0]), V(e->op[1])));
        case K_LSHR: return wrap(Z3_mk_bvlshr(c, V(e->op[0]), V(e->op[1])));
        case K_ASHR: return wrap(Z3_mk_bvashr(c, V(e->op[0]), V(e->op[1])));
        case K_CONCAT: return Z3_mk_concat(c, V(e->op[0]), V(e->op[1]));
        case K_EXTRACT: return Z3_mk_extract(c, e->aux + e->w - 1, e->aux, V(e->op[0]));
        case K_ZEXT:
            if (e->op[0]->w == 1) return Z3_mk_ite(c, B(e->op[0]), bvConst(1, e->w), bvConst(0, e->w));
            return Z3_mk_zero_ext(c, e->w - e->op[0]->w, V(e->op[0]));
        case K_SEXT:
            if (e->op[0]->w == 1) return Z3_mk_ite(c, B(e->op[0]), bvConst(~(u128)0 & mask128(e->w), e->w), bvConst(0, e->w));
            return Z3_mk_sign_ext(c, e->w - e->op[0]->w, V(e->op[0]));
        case K_ITE: return Z3_mk_ite(c, B(e->op[0]), B(e->op[1]), B(e->op[2]));
        default: break;
    }
    fprintf(stderr, "symx: cannot convert expression kind %d\n", e->k);
    abort();
}
Z3_ast conv(E e) {
    if (g_z3.size() <= e->id) g_z3.resize(g_all.size() + 1024, nullptr);
    if (g_z3[e->id]) return g_z3[e->id];
    // iterative for deep expressions
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back();
        if (g_z3[x->id]) { st.pop_back(); continue; }
        bool ready = true;
        for (unsigned i = 0; i < x->nops; ++i) if (!g_z3[x->op[i]->id]) { st.push_back(x->op[i]); ready = false; }
        if (!ready) continue;
        st.pop_back();
        Z3_ast a = convOp(x);
        Z3_inc_ref(g_ctx, a);
        g_z3[x->id] = a;
    }
    return g_z3[e->id];
}
Z3_ast rangeOf(u32 v) {
    auto &x = g_vars[v];
    E e = intern(K_VAR, x.w, 0, nullptr, nullptr, nullptr, v, 0);
    Z3_ast a = conv(e), b[2];
    if (x.w == 1) return Z3_mk_true(g_ctx);
    Z3_ast lo = bvConst((u64)x.lo & mask64(x.w), x.w), hi = bvConst((u64)x.hi & mask64(x.w), x.w);
    if (x.isSigned) { b[0] = Z3_mk_bvsle(g_ctx, lo, a); b[1] = Z3_mk_bvsle(g_ctx, a, hi); }
    else { b[0] = Z3_mk_bvule(g_ctx, lo, a); b[1] = Z3_mk_bvule(g_ctx, a, hi); }
    return Z3_mk_and(g_ctx, 2, b);
}
struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
struct KeyHash { size_t operator()(std::vector<u32> const &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ULL; return h; } };
std::unordered_map<std::vector<u32>, CacheEnt, KeyHash> g_cache;
bool intersects(const VarSet *a, std::vector<char> const &in) { for (auto x : *a) if (in[x]) return true; return false; }
} // namespace

static void slice(std::vector<E> const &pc, E cond, std::vector<E> &out, std::vector<u32> &vars) {
    std::vector<char> in(g_vars.size(), 0);
    for (auto v : *cond->vars) in[v] = 1;
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) {
            if (used[i] || !intersects(pc[i]->vars, in)) continue;
            used[i] = 1;
            out.push_back(pc[i]);
            for (auto v : *pc[i]->vars) if (!in[v]) { in[v] = 1; ch = true; }
        }
    }
    for (u32 i = 0; i < in.size(); ++i) if (in[i]) vars.push_back(i);
}
Res solve(std::vector<E> const &pc, E cond, Model &model) {
    ++g_stats.queries;
    if (cond->isConst() && !cond->c) return UNSAT;
    std::vector<E> sl;
    std::vector<u32> vars;
    slice(pc, cond, sl, vars);
    std::vector<u32> key;
    for (E e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        ++g_stats.cacheHits;
        for (auto &p : it->second.m) model.set(p.first, p.second);
        return it->second.r;
    }
    z3init();
    ++g_stats.z3;
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r = Z3_L_UNDEF;
    Z3_solver used = g_simple;
    for (int tier = 0; tier < 2; ++tier) {
        used = tier ? g_tactic : g_simple;
        Z3_solver_reset(g_ctx, used);
        setTimeout(used, tier ? g_timeoutMs2 : g_timeoutMs1);
        for (E e : sl) Z3_solver_assert(g_ctx, used, conv(e));
        for (u32 v : vars) if (g_vars[v].ranged) Z3_solver_assert(g_ctx, used, rangeOf(v));
        Z3_solver_assert(g_ctx, used, conv(cond));
        g_z3err = false;
        r = Z3_solver_check(g_ctx, used);
        if (g_z3err) r = Z3_L_UNDEF;
        if (r != Z3_L_UNDEF) break;
    }
    CacheEnt ent;
    if (r == Z3_L_TRUE) {
        ent.r = SAT;
        ++g_stats.sat;
        Z3_model m = Z3_solver_get_model(g_ctx, used);
        Z3_model_inc_ref(g_ctx, m);
        for (u32 v : vars) {
            auto &x = g_vars[v];
            E e = intern(K_VAR, x.w, 0, nullptr, nullptr, nullptr, v, 0);
            Z3_ast out;
            u64 val = 0;
            if (Z3_model_eval(g_ctx, m, conv(e), true, &out)) {
                if (x.w == 1) val = Z3_get_bool_value(g_ctx, out) == Z3_L_TRUE;
                else { uint64_t t = 0; Z3_get_numeral_uint64(g_ctx, out, &t); val = t; }
            }
            ent.m.push_back({v, val});
        }
        Z3_model_dec_ref(g_ctx, m);
        for (auto &p : ent.m) model.set(p.first, p.second);
        // self-check of the encoding: the model must satisfy the query under our own evaluator
        bool ok = evalExpr(cond, model) != 0;
        for (E e : sl) ok = ok && evalExpr(e, model) != 0;
        if (!ok) { fprintf(stderr, "symx: internal error: solver model does not satisfy the query\n"); exit(3); }
    } else if (r == Z3_L_FALSE) { ent.r = UNSAT; ++g_stats.unsat; }
    else { ent.r = UNKNOWN; ++g_stats.unknown; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_stats.time += dt;
    if (dt > g_stats.maxTime) g_stats.maxTime = dt;
    static const char *slow = getenv("SYMX_SLOW");
    if (slow && dt > atof(slow)) {
        static int n = 0;
        std::string f = "/tmp/slow" + std::to_string(n++) + ".smt2";
        fprintf(stderr, "symx: slow query %.2fs res %d -> %s (%zu constraints): %s\n", dt, (int)ent.r, f.c_str(), sl.size(), toStr(cond, 12).c_str());
        dumpSmt2(pc, cond, f);
    }
    g_cache.emplace(std::move(key), ent);
    return ent.r;
}
bool dumpSmt2(std::vector<E> const &pc, E cond, std::string const &path) {
    z3init();
    std::vector<E> sl; std::vector<u32> vars;
    slice(pc, cond, sl, vars);
    Z3_solver s = Z3_mk_simple_solver(g_ctx);
    Z3_solver_inc_ref(g_ctx, s);
    for (E e : sl) Z3_solver_assert(g_ctx, s, conv(e));
    for (u32 v : vars) if (g_vars[v].ranged) Z3_solver_assert(g_ctx, s, rangeOf(v));
    Z3_solver_assert(g_ctx, s, conv(cond));
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return false;
    fputs(Z3_solver_to_string(g_ctx, s), f);
    fputs("(check-sat)\n", f);
    fclose(f);
    Z3_solver_dec_ref(g_ctx, s);
    return true;
}
} // namespace symx
