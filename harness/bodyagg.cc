// body aggregates over free atoms with symbolic weights and bounds
#include "asp.hh"
#include <stdexcept>
using namespace H;
// case: fn*100 + op*10 + sign  (fn 0 sum 1 sum+ 2 count 3 min 4 max)
int main() {
    int fn = pick("fn", 5), op = pick("op", 6), sign = pick("sign", 3), n = (int)symx_param("n", 2), two = pick("two", 2);
    int lo = (int)symx_param("lo", -3), hi = (int)symx_param("hi", 3);
    static const char *fns[] = {"#sum", "#sum+", "#count", "#min", "#max"}, *ops[] = {">=", ">", "<=", "<", "=", "!="}, *sg[] = {"", "not ", "not not "};
    static const char *at[] = {"a", "b", "c"};
    bool setTuple = pick("tuple", 2);
    // which conditions are facts
    int fm = (int)pick("facts", 3);
    std::vector<int> w;
    std::string el;
    SymVec ch, par;
    std::string ps;
    for (int i = 0; i < n; ++i) {
        std::string v = "w" + std::to_string(i);
        w.push_back(symx_int(v.c_str(), lo, hi));
        par.push_back(num(w[i]));
        ps += (i ? "," : "") + v;
        el += (i ? "; " : "") + v + (setTuple ? "" : "," + std::to_string(i)) + " : " + at[i];
        if (!((fm >> i) & 1)) ch.push_back(id(at[i]));
    }
    int bd = symx_int("bd", symx_param("blo", lo), symx_param("bhi", hi)), bd2 = 0;
    par.push_back(num(bd));
    ps += ",bd";
    std::string guard = std::string(" ") + ops[op] + " bd";
    std::string left;
    if (two) { bd2 = symx_int("bd2", symx_param("blo", lo), symx_param("bhi", hi)); par.push_back(num(bd2)); ps += ",bd2"; left = "bd2 <= "; }
    std::string open, choice;
    for (int i = 0; i < n; ++i) {
        if ((fm >> i) & 1) choice += std::string(at[i]) + ". ";
        else open += std::string(open.empty() ? "" : ";") + at[i];
    }
    if (!open.empty()) choice += "{" + open + "}.";
    std::string prg = "#program base(" + ps + "). " + choice + " p :- " + sg[sign] + left + fns[fn] + " { " + el + " }" + guard + ".";
    Session s;
    bool ok = false;
    try { ok = s.run(prg, par); }
    catch (std::overflow_error const &) {
        // sums whose weights and bounds do not fit into 32 bits are rejected
        int64_t total = bd < 0 ? -(int64_t)bd : bd;
        for (auto x : w) total += x < 0 ? -(int64_t)x : x;
        symx_assert(total >= INT32_MAX - 1, "needless overflow error");
        symx_reach("overflow");
        return 0;
    }
    symx_assert(ok, "accepted");
    
    checkDefined(s.rec, ch, {id("p")}, [&](unsigned open_) {
        unsigned sub = 0;
        for (int i = 0, k = 0; i < n; ++i) {
            if ((fm >> i) & 1) sub |= 1u << i;
            else { sub |= ((open_ >> k) & 1u) << i; ++k; }
        }
        // value of the aggregate; tuples are sets: equal tuples count once
        int64_t v = 0;
        int empty = 1;
        int64_t mn = 0, mx = 0;
        for (int i = 0; i < n; ++i) {
            if (!((sub >> i) & 1)) continue;
            int dup = 0;
            if (setTuple) for (int j = 0; j < i; ++j) if ((sub >> j) & 1) dup |= (w[j] == w[i]);
            int64_t x = w[i];
            if (fn == 0) v += x * (1 - dup);
            if (fn == 1) v += (x > 0) * x * (1 - dup);
            if (fn == 2) v += 1 - dup;
            mn = empty ? x : (int64_t)symx_ite_(x < mn, (uint64_t)x, (uint64_t)mn);
            mx = empty ? x : (int64_t)symx_ite_(x > mx, (uint64_t)x, (uint64_t)mx);
            empty = 0;
        }
        // an empty minimum is #sup, an empty maximum #inf
        if (fn == 3) v = empty ? INT32_MAX * (int64_t)2 : mn;
        if (fn == 4) v = empty ? INT32_MIN * (int64_t)2 : mx;
        int r = 0;
        switch (op) {
            case 0: r = v >= bd; break;
            case 1: r = v > bd; break;
            case 2: r = v <= bd; break;
            case 3: r = v < bd; break;
            case 4: r = v == bd; break;
            case 5: r = v != bd; break;
        }
        if (two) r &= bd2 <= v;
        if (sign == 1) r = 1 - r;
        return std::vector<int>{r};
    });
    symx_observe("rules", (int64_t)s.rec.rules.size());
    symx_reach("end");
}
