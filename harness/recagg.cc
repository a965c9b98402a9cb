// aggregates that depend recursively on the rules they occur in
#include "asp.hh"
using namespace H;
static int relv(int op, int64_t v, int64_t bd) {
    switch (op) { case 0: return v >= bd; case 1: return v > bd; case 2: return v <= bd; case 3: return v < bd; case 4: return v == bd; default: return v != bd; }
}
struct Agg {
    int fn, op, naf, w[2], at[2], neg[2], bd;
    int holds(unsigned m) const {
        int64_t v = 0;
        int p[2];
        for (int i = 0; i < 2; ++i) p[i] = at[i] < 0 ? 0 : (int)((m >> at[i]) & 1) ^ neg[i];
        if (fn == 0) v = (int64_t)w[0] * p[0] + (int64_t)w[1] * p[1];
        if (fn == 1) v = (int64_t)w[0] * p[0] * (w[0] > 0) + (int64_t)w[1] * p[1] * (w[1] > 0);
        if (fn == 2) v = p[0] + p[1];
        if (fn >= 3) {
            if (!p[0] && !p[1]) v = fn == 3 ? INT32_MAX * (int64_t)2 : INT32_MIN * (int64_t)2;
            else if (!p[1]) v = w[0];
            else if (!p[0]) v = w[1];
            else v = (int64_t)symx_ite_(fn == 3 ? w[0] < w[1] : w[0] > w[1], (uint64_t)(int64_t)w[0], (uint64_t)(int64_t)w[1]);
        }
        return relv(op, v, bd);
    }
};
int main() {
    static const char *fns[] = {"#sum", "#sum+", "#count", "#min", "#max"}, *ops[] = {">=", ">", "<=", "<", "=", "!="}, *an[] = {"a", "b", "c"};
    int fn = pick("fn", 5), op = pick("op", 6), c = parts("case", 6), lo = (int)symx_param("lo", -1), hi = (int)symx_param("hi", 2);
    int op2 = op;
    // keeps the number of auxiliary atoms small
    if (c == 4) { symx_assume(op != 5); lo = lo < 0 ? 0 : lo; hi = hi > 1 ? 1 : hi; }
    SymVec par;
    std::string ps;
    int k = 0;
    auto v = [&](int l, int h) {
        std::string nm = "v" + std::to_string(k++);
        int x = symx_int(nm.c_str(), l, h);
        par.push_back(num(x));
        ps += (ps.empty() ? "" : ",") + nm;
        return x;
    };
    auto agg = [&](int a0, int a1, int n0, int n1, int naf, int o, std::string &t) {
        Agg g;
        g.fn = fn; g.op = o; g.naf = naf; g.at[0] = a0; g.at[1] = a1; g.neg[0] = n0; g.neg[1] = n1;
        int k0 = k;
        bool wt = fn != 2;
        t = std::string(naf ? "not " : "") + fns[fn] + " { ";
        for (int i = 0; i < 2; ++i) {
            g.w[i] = 1;
            if (g.at[i] < 0) continue;
            std::string w = "1";
            if (wt) { g.w[i] = v(lo, hi); w = "v" + std::to_string(k - 1); }
            t += (i ? "; " : "") + w + "," + std::to_string(i) + " : " + (g.neg[i] ? "not " : "") + an[g.at[i]];
        }
        (void)k0;
        g.bd = v(fn == 2 ? 0 : lo, hi);
        t += std::string(" } ") + ops[o] + " v" + std::to_string(k - 1);
        return g;
    };
    // rules: head, aggregate, positive body atom
    struct R { int head; bool choice; int pos; int agg; };
    std::vector<Agg> as;
    std::vector<R> rs;
    std::string t, prg;
    switch (c) {
        case 0: as.push_back(agg(0, 1, 0, 0, 0, op, t)); rs = {{0, false, -1, 0}, {1, false, 0, -1}}; prg = "a :- " + t + ". b :- a."; break;
        case 1: as.push_back(agg(0, 2, 0, 0, 0, op, t)); rs = {{0, false, -1, 0}, {2, true, -1, -1}}; prg = "a :- " + t + ". {c}."; break;
        case 2: as.push_back(agg(1, -1, 0, 0, 0, op, t)); prg = "a :- " + t + ". "; as.push_back(agg(0, -1, 0, 0, 0, op2, t)); prg += "b :- " + t + "."; rs = {{0, false, -1, 0}, {1, false, -1, 1}}; break;
        case 3: as.push_back(agg(1, -1, 0, 0, 1, op, t)); prg = "a :- " + t + ". "; as.push_back(agg(0, -1, 0, 0, 1, op2, t)); prg += "b :- " + t + "."; rs = {{0, false, -1, 0}, {1, false, -1, 1}}; break;
        case 4: as.push_back(agg(0, 1, 0, 0, 0, op, t)); rs = {{0, false, -1, 0}, {1, false, -1, 0}}; prg = "a :- " + t + ". b :- " + t + "."; break;
        case 5: as.push_back(agg(0, 1, 0, 0, 0, op, t)); rs = {{0, false, 2, 0}, {1, true, -1, -1}, {2, false, 0, -1}, {2, true, -1, -1}}; prg = "a :- c, " + t + ". {b}. c :- a. {c}."; break;
    }
    symx_observe("prg", prg);
    Session s;
    bool ok = s.run("#program base(" + ps + "). " + prg, par);
    symx_assert(ok, "accepted");
    // candidates X such that X is a minimal model of the rules whose bodies hold in X (Ferraris/FLP coincide for positive elements)
    int count[8] = {};
    Models m(s.rec);
    m.each([&] {
        unsigned x = 0;
        for (int i = 0; i < 3; ++i) x |= (symx_concrete(m.shown(id(an[i]))) ? 1u : 0u) << i;
        count[x] += m.valid;
    });
    auto body = [&](R const &r, unsigned cand, unsigned set) {
        int b = r.pos >= 0 ? (int)((set >> r.pos) & 1) : 1;
        if (r.agg >= 0) b &= as[r.agg].naf ? 1 - as[r.agg].holds(cand) : as[r.agg].holds(set);
        return b;
    };
    int sound = 1, complete = 1;
    for (unsigned X = 0; X < 8; ++X) {
        auto model = [&](unsigned Y) {
            int md = 1;
            for (auto &r : rs) {
                if (r.choice && !((X >> r.head) & 1)) continue;
                md &= (1 - (body(r, X, X) & body(r, X, Y))) | (int)((Y >> r.head) & 1);
            }
            return md;
        };
        int st = model(X);
        for (unsigned Y = 0; Y < X; ++Y) if ((Y & X) == Y) st &= 1 - model(Y);
        sound &= count[X] <= st;
        complete &= count[X] >= st;
    }
    symx_assert(sound, "models-sound");
    symx_assert(complete, "models-complete");
    symx_reach("end");
}
