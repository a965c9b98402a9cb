#include "ground.hh"
using namespace H;
int main() {
    Session s;
    int a = symx_int("a", -3, 3), b = symx_int("b", -3, 3);
    bool ok = s.run("#program base(a,b). p(a). p(b). q(X+1) :- p(X), X > 0. { r(X) } :- q(X).", {num(a), num(b)});
    symx_assert(ok, "no-error");
    symx_observe("nrules", (int64_t)s.rec.rules.size());
    bool x = false;
    for (auto &o : s.rec.outs) if (o.sym.type() == SymbolType::Fun && strcmp(o.sym.name().c_str(), "q") == 0) x = x || o.sym.args()[0] == num(a + 1);
    symx_assert(x == (a > 0), "q");
    symx_reach("end");
}
