SEEDS = []


def S(id, prop, edits, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, **kw))


G = "libgringo/src/"
GH = "libgringo/gringo/"
S("c01-greater-equal", "C01", [(G + "symbol.cc", "            return std::lexicographical_compare(begin(aa), end(aa), begin(ab), end(ab));\n        }\n        case SymbolType_::Special",
    "            return aa.size != 0 && (aa[0] < ab[0] || (aa[0] == ab[0] && std::lexicographical_compare(begin(aa), end(aa) - 1, begin(ab), end(ab) - 1)));\n        }\n        case SymbolType_::Special")],
  "two compound terms of the same name that differ only in their last argument", "the total order ignores the last argument: two different terms are neither less nor equal",
  tests=[("text", "a(f(1,1)). a(f(1,2)). b(X,Y) :- a(X), a(Y), X < Y."), ("text", "p(X) :- X = #max { f(1,2,3); f(1,2,4) }.")])
S("c03-one-tuple", "C03", [(GH + "symbol.hh", "            case '\\\\': {\n                res.push_back('\\\\');\n                res.push_back('\\\\');\n                break;\n            }\n            case '\"'", "            case '\"'")],
  "a string with a backslash", "the printed string denotes another string or is no string at all", tests=[("text", 'p("a\\\\nb").'), ("text", 'p(f("\\\\")).')])

S("c08-roundup", "C08", [(G + "term.cc", "    if (((n < 0) != (m < 0)) && b != 0) {\n        --a;\n    }", "    if (b != 0) {\n        ++a;\n    }")],
  "a lower bound obtained by dividing a negative number with a remainder", "values at the lower end of a range derived from comparisons are lost",
  tests=[("text", "p(X) :- 3*X >= -7, X <= 0."), ("text", "p(X,Y) :- 2*X+Y >= -3, X <= 0, Y = 0..1.")])
S("c10-backjump", "C10", [(G + "ground/statements.cc", "                } else {\n                    y->data.depends.insert(y->data.depends.end(), bb.second.begin(), bb.second.end());\n                }", "                } else if (y->data.depends.empty()) {\n                    y->data.depends.insert(y->data.depends.end(), bb.second.begin(), bb.second.end());\n                }")],
  "a join literal that depends on variables of two earlier literals and fails for some of their combinations", "after a failing literal the instantiation skips alternatives of the literals it depends on, so instances of rules are missing",
  tests=[("text", "a(1..3). b(1..3). p(X,Y) :- a(X), b(Y), X < Y. c(1,2). q(Y,Z) :- p(X,Y), b(Z), not c(X,Z), not p(Z,X)."), ("text", "a(1..3). b(1..3). r(X,Y,Z) :- a(X), b(Y), a(Z), X+Y+Z=6."), ("text", "a(1..3). b(1..3). c(1..2). r(X,Y) :- a(X), b(Y), c(Z), X != Z, Y != Z, X != Y.")])
