// printing a symbol and parsing the text yields the same symbol
#include "sym.hh"
#include "ground.hh"
#include <gringo/input/groundtermparser.hh>
using namespace H;
int main() {
    GenOpt o;
    o.depth = (int)symx_param("depth", 1);
    o.maxArgs = (int)symx_param("args", 2);
    o.strLen = (int)symx_param("str", 2);
    o.nlo = (int)symx_param("nlo", -20);
    o.nhi = (int)symx_param("nhi", 20);
    Spec sp = gen("x", o);
    int only = (int)symx_param("kind", -1);
    symx_assume(only < 0 || sp.kind == only);
    Symbol s = sp.build();
    std::ostringstream ss;
    s.print(ss);
    std::string t = ss.str();
    symx_observe("text", t);
    int err = 0;
    Logger log([&](Warnings, char const *) { ++err; }, 100);
    Input::GroundTermParser p;
    Symbol r = p.parse(t, log);
    symx_assert(err == 0 && !log.hasError(), "parses");
    symx_assert(r == s, "same-symbol");
    // and inside a program
    if (symx_param("prg", 0)) {
        Session se;
        bool ok = se.run("p(" + t + ").");
        symx_assert(ok, "program-parses");
        bool found = false;
        for (auto &x : se.rec.outs) if (x.sym.args().size == 1 && x.sym.args()[0] == s) found = true;
        symx_assert(found && se.rec.outs.size() == 1, "same-symbol-in-program");
    }
    symx_reach("end");
}
