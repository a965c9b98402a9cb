// total order over symbols; agreement with the documented order
#include "sym.hh"
using namespace H;
int main() {
    int n = (int)symx_param("n", 2);
    GenOpt o;
    o.depth = (int)symx_param("depth", 1);
    o.maxArgs = (int)symx_param("args", 2);
    o.strLen = (int)symx_param("str", 1);
    o.leafOnlyNum = symx_param("leafnum", 0);
    std::vector<Spec> sp;
    std::vector<Symbol> sy;
    static const char *nm[] = {"x", "y", "z"};
    for (int i = 0; i < n; ++i) { sp.push_back(gen(nm[i], o)); sy.push_back(sp.back().build()); }
    for (int i = 0; i < n; ++i) {
        auto a = sy[i];
        symx_assert(a == a && !(a != a) && !(a < a) && a <= a && a >= a && !(a > a), "reflexive");
        for (int j = 0; j < n; ++j) {
            if (i == j) continue;
            auto b = sy[j];
            int c = refcmp(sp[i], sp[j]);
            symx_assert((a == b) == (c == 0), "equality-structural");
            symx_assert((a != b) == (c != 0), "inequality");
            symx_assert((a < b) == (c < 0), "less");
            symx_assert((a > b) == (c > 0), "greater");
            symx_assert((a <= b) == (c <= 0), "less-equal");
            symx_assert((a >= b) == (c >= 0), "greater-equal");
            if (a == b) symx_assert(a.hash() == b.hash(), "hash");
        }
    }
    if (n == 3) {
        symx_assert(!(sy[0] < sy[1] && sy[1] < sy[2]) || sy[0] < sy[2], "transitive");
        symx_assert(!(sy[0] == sy[1] && sy[1] == sy[2]) || sy[0] == sy[2], "transitive-eq");
    }
    symx_observe("lt", n > 1 && sy[0] < sy[1]);
    symx_reach("end");
}
