// arithmetic terms: value, undefinedness and the contexts they are evaluated in
#include "ground.hh"
using namespace H;
static Symbol operand(char const *n, int kind, int v) {
    switch (kind) {
        case 0: return num(v);
        case 1: return Symbol::createId("c");
        case 2: return Symbol::createStr("s");
        case 3: { Symbol x = num(1); return Symbol::createFun("f", SymSpan{&x, 1}); }
        case 4: return Symbol::createSup();
        default: return Symbol::createInf();
    }
}
int main() {
    int op = pick("op", 11), ctx = pick("ctx", 5);
    static const char *ops[] = {"+", "-", "*", "/", "\\", "**", "&", "?", "^"};
    int lo = (int)symx_param("lo", INT32_MIN), hi = (int)symx_param("hi", INT32_MAX), elo = (int)symx_param("elo", INT32_MIN), ehi = (int)symx_param("ehi", INT32_MAX);
    // types: 0 numbers only, 1 all pairs of types with at least one that is not a number, 2 same for numbers, constants, and functions
    static const int few[] = {0, 1, 3};
    int types = symx_param("types", 0), kn = types == 1 ? 5 : 2;
    int ka = types ? symx_choose("ka", 0, kn) : 0, kb = types && op < 9 ? symx_choose("kb", 0, kn) : 0;
    if (types == 2) { ka = few[ka]; kb = few[kb]; }
    if (types) symx_assume(ka + kb > 0);
    int av = ka ? 0 : types ? 3 : symx_int("a", lo, hi), bv = kb ? 0 : types ? 2 : symx_int("b", elo, ehi);
    Symbol a = operand("a", ka, av), b = operand("b", kb, bv);
    auto ex = [&](std::string const &x, std::string const &y) { return op < 9 ? "(" + x + " " + ops[op] + " " + y + ")" : op == 9 ? "|" + x + "|" : "~" + x; };
    if (op == 5 && ka == 0 && kb == 0) symx_assume(av >= -9 && av <= 9 && bv <= 9);
    // each operand is a program constant (folded while simplifying) or a variable (evaluated per instance)
    int ca = pick("ca", 2), cb = op < 9 ? pick("cb", 2) : ca;
    // matching inverts products, which is only possible if they are representable
    if (op == 2 && ctx >= 1 && ctx <= 3 && ca != cb && ka == 0 && kb == 0) {
        int c = ca ? av : bv, m = symx_param("coef", 5);
        symx_assume(c >= -m && c <= m);
        c = symx_concrete(c);
        (ca ? av : bv) = c;
        (ca ? a : b) = num(c);
        int64_t p = (int64_t)av * bv, r = symx_param("mulrange", 2000);
        int o = ca ? bv : av;
        symx_assume(o >= -r && o <= r);
        symx_assume(p >= INT32_MIN && p <= INT32_MAX);
    }
    Session s;
    if (ca) s.define("a", a);
    if (cb) s.define("b", b);
    std::string prg = "#program base(pa,pb). d(pa,pb). ", x = ca ? "a" : "X", y = cb ? "b" : "Y";
    switch (ctx) {
        case 0: prg += "r(" + ex(x, y) + ") :- d(X,Y)."; break;
        case 1: prg += "r(Z) :- d(X,Y), Z = " + ex(x, y) + "."; break;                    // assignment
        case 2: prg += "e(pa,pb). r(Z) :- e(X,Y), Z = f(" + ex(x, y) + "), Z != 0."; break; // nested
        case 3: prg += "e(M) :- d(X,Y), M = " + ex(x, y) + ". r(Z) :- d(X,Y), e(Z), e(" + ex(x, y) + ")."; break; // in a body atom
        case 4: prg += "r(Z) :- d(X,Y), Z = #sum { " + ex(x, y) + " }."; break;          // in an aggregate element
    }
    bool defined = ka == 0 && kb == 0;
    if (op == 3 || op == 4) defined = defined && bv != 0;
    if (op == 5) defined = defined && !(av == 0 && bv < 0);
    int64_t v = 0;
    bool check = true;
    if (defined) {
        uint32_t x = (uint32_t)av, y = (uint32_t)bv;
        switch (op) {
            case 0: v = (int32_t)(x + y); break;
            case 1: v = (int32_t)(x - y); break;
            case 2: v = (int32_t)(x * y); break;
            case 3: v = bv == -1 ? (int32_t)(0u - x) : av / bv; break;
            case 4: v = bv == -1 ? 0 : av % bv; break;
            case 5: {
                // only checked for exponents that are small, negative ones have no integer value unless the base is 1 or -1
                if (bv < 0) { v = 0; check = av > 1 || av < -1; break; }
                uint32_t r = 1;
                for (int i = 0, e = symx_concrete(bv); i < e; ++i) r *= x;
                v = (int32_t)r;
                break;
            }
            case 6: v = (int32_t)(x & y); break;
            case 7: v = (int32_t)(x | y); break;
            case 8: v = (int32_t)(x ^ y); break;
            case 9: v = av < 0 ? (int32_t)(0u - x) : av; break;
            case 10: v = (int32_t)~x; break;
        }
    }
    bool ok = s.run(prg, {a, b});
    symx_assert(ok, "no-error");
    int found = 0, right = 0;
    for (auto &o : s.rec.outs) {
        if (o.sym.type() != SymbolType::Fun || strcmp(o.sym.name().c_str(), "r") != 0) continue;
        ++found;
        Symbol z = o.sym.args()[0];
        if (ctx == 2) { symx_assert(z.type() == SymbolType::Fun && z.args().size == 1, "nested"); z = z.args()[0]; }
        right = z.type() == SymbolType::Num && z.num() == (int)v;
    }
    if (ctx == 4) {
        // an undefined tuple contributes nothing
        symx_assert(found == 1, "sum-defined");
        if (check) symx_assert(found == 1 && right, "sum-value");
    } else if (defined) {
        symx_assert(found == 1, "defined");
        if (check) symx_assert(right, "value");
    } else symx_assert(found == 0, "undefined-dropped");
    symx_observe("undef", s.msgs.count[static_cast<int>(Warnings::OperationUndefined)] > 0);
    if (!defined) symx_assert(s.msgs.count[static_cast<int>(Warnings::OperationUndefined)] > 0, "undefined-reported");
    else symx_assert(s.msgs.count[static_cast<int>(Warnings::OperationUndefined)] == 0, "defined-not-reported");
    symx_observe("found", found);
    symx_reach(defined ? "defined" : "undefined");
}
