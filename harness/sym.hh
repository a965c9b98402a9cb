// symbolic symbols together with an independent description of them
#pragma once
#include <symx.h>
#include <gringo/symbol.hh>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
namespace H {
using namespace Gringo;
struct Spec {
    int kind = 0; // 0 inf, 1 num, 2 str, 3 fun, 4 sup
    int num = 0;
    std::string s; // string value or function name
    bool neg = false;
    std::vector<Spec> args;
    Symbol build() const {
        switch (kind) {
            case 0: return Symbol::createInf();
            case 1: return Symbol::createNum(num);
            case 2: return Symbol::createStr(s.c_str());
            case 4: return Symbol::createSup();
        }
        if (args.empty()) return Symbol::createId(s.c_str(), neg);
        SymVec a;
        for (auto &x : args) a.push_back(x.build());
        return Symbol::createFun(s.c_str(), Potassco::toSpan(a), neg);
    }
};
// class of a symbol in the documented order: #inf < numbers < constants < strings < functions < #sup
inline int rank(Spec const &a) { return a.kind == 0 ? 0 : a.kind == 1 ? 1 : a.kind == 3 && a.args.empty() ? 2 : a.kind == 2 ? 3 : a.kind == 3 ? 4 : 5; }
inline int refcmp(Spec const &a, Spec const &b) {
    int ra = rank(a), rb = rank(b);
    if (ra != rb) return ra < rb ? -1 : 1;
    switch (ra) {
        case 1: return a.num < b.num ? -1 : a.num > b.num ? 1 : 0;
        case 2: if (a.neg != b.neg) return a.neg ? 1 : -1; return a.s.compare(b.s);
        case 3: return a.s.compare(b.s);
        case 4: {
            if (a.neg != b.neg) return a.neg ? 1 : -1;
            if (a.args.size() != b.args.size()) return a.args.size() < b.args.size() ? -1 : 1;
            if (int c = a.s.compare(b.s)) return c;
            for (size_t i = 0; i < a.args.size(); ++i) if (int c = refcmp(a.args[i], b.args[i])) return c;
        }
    }
    return 0;
}
inline std::string symStr(std::string const &n, int maxLen, int lo = 1, int hi = 255) {
    int len = symx_choose((n + ".len").c_str(), 0, maxLen);
    std::string r;
    for (int i = 0; i < len; ++i) r.push_back((char)symx_byte((n + "." + std::to_string(i)).c_str(), lo, hi));
    return r;
}
struct GenOpt { int depth = 1; int maxArgs = 2; int strLen = 2; int names = 2; int nlo = INT32_MIN, nhi = INT32_MAX; bool tuples = true; int slo = 1, shi = 255; bool leafOnlyNum = false; };
inline Spec gen(std::string const &n, GenOpt const &o, int depth = -1) {
    if (depth < 0) depth = o.depth;
    Spec r;
    if (depth < o.depth && o.leafOnlyNum) {
        r.kind = 1;
        r.num = symx_int((n + ".num").c_str(), o.nlo, o.nhi);
        return r;
    }
    r.kind = symx_choose((n + ".kind").c_str(), 0, 4);
    if (r.kind == 1) r.num = symx_int((n + ".num").c_str(), o.nlo, o.nhi);
    if (r.kind == 2) r.s = symStr(n + ".str", o.strLen, o.slo, o.shi);
    if (r.kind == 3) {
        int k = depth > 0 ? symx_choose((n + ".nargs").c_str(), 0, o.maxArgs) : 0;
        int nm = symx_choose((n + ".name").c_str(), k && o.tuples ? 0 : 1, o.names);
        static const char *names[] = {"", "f", "g", "ff"};
        r.s = names[nm];
        r.neg = (nm || k) && symx_choose((n + ".neg").c_str(), 0, 1);
        for (int i = 0; i < k; ++i) r.args.push_back(gen(n + ".a" + std::to_string(i), o, depth - 1));
    }
    return r;
}
} // namespace H
