// aggregates in rule heads and assignments from aggregates
#include "asp.hh"
using namespace H;
static int relv(int op, int64_t v, int64_t bd) {
    switch (op) { case 0: return v >= bd; case 1: return v > bd; case 2: return v <= bd; case 3: return v < bd; case 4: return v == bd; default: return v != bd; }
}
int main() {
    // kind 0: guarded head aggregate, 1: set with bounds, 2: assignment
    int kind = (int)symx_param("kind", 0), fn = kind == 1 ? 2 : pick("fn", 5), op = kind == 2 ? 4 : pick("op", 6), lo = (int)symx_param("lo", -2), hi = (int)symx_param("hi", 2);
    bool setTuple = kind != 1 && pick("tuple", 2), two = kind != 2 && pick("two", 2);
    static const char *fns[] = {"#sum", "#sum+", "#count", "#min", "#max"}, *ops[] = {">=", ">", "<=", "<", "=", "!="};
    int w[3] = {symx_int("w0", lo, hi), symx_int("w1", lo, hi), 0}, bd = 0, bd2 = 0;
    SymVec par{num(w[0]), num(w[1])};
    std::string ps = "w0,w1", el, prg;
    if (kind < 2) { bd = symx_int("bd", lo, hi); par.push_back(num(bd)); ps += ",bd"; }
    if (two) { bd2 = symx_int("bd2", lo, hi); par.push_back(num(bd2)); ps += ",bd2"; }
    if (kind == 1) el = "h(0); h(w0); h(w1) : c";
    else el = std::string("w0") + (setTuple ? "" : ",0") + " : h(0)" + (kind == 2 ? "" : "") + "; w1" + (setTuple ? "" : ",1") + (kind == 2 ? " : h(1), c" : " : h(1) : c");
    std::string guard = std::string(" ") + ops[op] + " bd", left = two ? "bd2 <= " : "";
    if (kind == 0) prg = "{b;c}. " + left + fns[fn] + " { " + el + " }" + guard + " :- b.";
    if (kind == 1) prg = "{b;c}. " + left + "{ " + el + " }" + guard + " :- b.";
    if (kind == 2) prg = std::string("{h(0);h(1);c}. p(S) :- S = ") + fns[fn] + " { " + el + " }.";
    symx_observe("prg", prg);
    Session s;
    bool ok = s.run("#program base(" + ps + "). " + prg, par);
    symx_assert(ok, "accepted");
    // value over the present elements
    auto value = [&](int p0, int p1, int &isInf) {
        int64_t v = 0;
        int dup = setTuple ? p0 & p1 & (w[0] == w[1]) : 0;
        isInf = 0;
        if (fn == 0) v = (int64_t)w[0] * p0 + (int64_t)w[1] * p1 - dup * (int64_t)w[1];
        if (fn == 1) v = (int64_t)w[0] * p0 * (w[0] > 0) + (int64_t)w[1] * (p1 & (1 - dup)) * (w[1] > 0);
        if (fn == 2) v = p0 + p1 - dup;
        if (fn >= 3) {
            if (!p0 && !p1) { isInf = 1; v = fn == 3 ? INT32_MAX * (int64_t)2 : INT32_MIN * (int64_t)2; }
            else if (!p1) v = w[0];
            else if (!p0) v = w[1];
            else v = (int64_t)symx_ite_(fn == 3 ? w[0] < w[1] : w[0] > w[1], (uint64_t)(int64_t)w[0], (uint64_t)(int64_t)w[1]);
        }
        return v;
    };
    if (kind == 2) {
        SymVec tg;
        for (int v = 2 * lo; v <= 2 * hi; ++v) tg.push_back(fun("p", {num(v)}));
        if (fn == 3) tg.push_back(fun("p", {Symbol::createSup()}));
        if (fn == 4) tg.push_back(fun("p", {Symbol::createInf()}));
        checkDefined(s.rec, {fun("h", {num(0)}), fun("h", {num(1)}), id("c")}, tg, [&](unsigned sub) {
            int inf;
            int64_t v = value(sub & 1, (sub >> 1) & (sub >> 2) & 1, inf);
            std::vector<int> r;
            for (int k = 2 * lo; k <= 2 * hi; ++k) r.push_back(v == k);
            if (fn >= 3) r.push_back(inf);
            return r;
        });
        for (auto &o : s.rec.outs) if (o.sym.type() == SymbolType::Fun && strcmp(o.sym.name().c_str(), "p") == 0) {
            int f = 0;
            for (auto &t : tg) f |= t == o.sym;
            symx_assert(f, "known-value");
        }
    }
    else {
        Oracle o;
        int b = o.atom(id("b")), c = o.atom(id("c"));
        o.choice(1, b);
        o.choice(1, c);
        if (kind == 0) {
            int h0 = o.atom(fun("h", {num(0)})), h1 = o.atom(fun("h", {num(1)}));
            o.choice(1, h0, {b});
            o.choice(1, h1, {b, c});
            o.tests.push_back([&, h0, h1, b, c](unsigned m) {
                if (!((m >> b) & 1)) return 1;
                int inf;
                int64_t v = value((m >> h0) & 1, (m >> h1) & (m >> c) & 1, inf);
                int r = relv(op, v, bd);
                if (two) r &= bd2 <= v;
                return r;
            });
        }
        else {
            // h(0), h(w0) and h(w1) may coincide
            std::vector<int> at;
            for (int v = lo; v <= hi; ++v) at.push_back(o.atom(fun("h", {num(v)})));
            for (int v = lo; v <= hi; ++v) {
                o.choice((v == 0) | (v == w[0]), at[v - lo], {b});
                o.choice(v == w[1], at[v - lo], {b, c});
            }
            o.tests.push_back([&, at, b, c](unsigned m) {
                if (!((m >> b) & 1)) return 1;
                int cnt = 0, C = (m >> c) & 1;
                for (int v = lo; v <= hi; ++v) if ((m >> at[v - lo]) & 1) cnt += (v == 0) | (v == w[0]) | (C & (v == w[1]));
                int r = relv(op, cnt, bd);
                if (two) r &= bd2 <= cnt;
                return r;
            });
        }
        checkModels(s.rec, o);
    }
    symx_reach("end");
}
