from registry import prop, H, PH, PYCOMMON

# C01
prop("C01", {"symbols": "pairs (triples for numbers/ids/strings)", "nesting": "1", "arguments": "0..2 (numbers)", "string bytes": "1 (any non-zero byte)", "numbers": "all 32-bit"}, [
    H("symorder.cc", "pairs", params=dict(n=2, depth=1, args=2, str=1, leafnum=1), reach=["end"], time=100),
    H("symorder.cc", "triples", params=dict(n=3, depth=0, str=1), reach=["end"], time=100),
], focus=["Symbol", "Sig", "String"])
prop("C02", {"nesting": "1 (thorough 2)", "numbers": "all 32-bit (text: -12..12)", "strings": "0..2 arbitrary non-zero bytes", "arguments": "0..2", "arities of signatures": "all 32-bit", "buffers": "0..announced size + 1"}, [
    H("csym.cc", "inspect", tus="clingo", params=dict(mode=0, str=2), reach=["end"], time=150),
    H("csym.cc", "text", tus="clingo", params=dict(mode=1, str=1, nlo=-12, nhi=12, args=1), reach=["end"], time=150),
    H("csym.cc", "strings", tus="clingo", params=dict(mode=1, str=2, depth=0, nlo=-12, nhi=12), reach=["end"], time=150),
    H("csym.cc", "pairs", tus="clingo", params=dict(mode=2, str=1, leafnum=1), reach=["end"], time=150),
    H("csym.cc", "signatures", tus="clingo", params=dict(mode=3), reach=["end"], time=150),
    H("csym.cc", "terms", tus="clingo", params=dict(mode=4, str=1, nlo=-12, nhi=12, args=1), reach=["end"], time=150),
    H("csym.cc", "tables", tus="clingo", params=dict(mode=5), reach=["end"], time=150),
    H("csym.cc", "deep-inspect", "thorough", tus="clingo", params=dict(mode=0, str=1, depth=2, args=1), reach=["end"], time=800),
    H("csym.cc", "deep-text", "thorough", tus="clingo", params=dict(mode=1, str=1, depth=2, args=1, nlo=-1, nhi=10), reach=["end"], time=800),
    H("csym.cc", "deep-pairs", "thorough", tus="clingo", params=dict(mode=2, str=2, args=2), reach=["end"], time=800),
], focus=["clingo_symbol", "clingo_signature", "clingo_parse_term", "clingo_add_string", "Sig"])
prop("C03", {"nesting": "1", "arguments": "0..2", "string bytes": "2 (any non-zero byte)", "numbers": "-20..20 nested, all 32-bit alone"}, [
    H("symtext.cc", "nested", params=dict(depth=1, args=2, str=2), reach=["end"], time=100),
    H("symtext.cc", "program", params=dict(depth=1, args=1, str=1, prg=1, nlo=-3, nhi=3), reach=["end"], time=100),
    H("symtext.cc", "numbers", params=dict(depth=0, nlo=-99, nhi=99, kind=1, prg=1), reach=["end"], time=100),
    H("symtext.cc", "numbers-max", params=dict(depth=0, nlo=2**31 - 10, nhi=2**31 - 1, kind=1, prg=1), reach=["end"], time=100),
    H("symtext.cc", "numbers-min", params=dict(depth=0, nlo=-2**31, nhi=-2**31 + 9, kind=1, prg=1), reach=["end"], time=100),
    H("symtext.cc", "deep", "thorough", params=dict(depth=2, args=1, str=1), reach=["end"], time=600),
], focus=["print", "quote", "GroundTerm", "NonGroundParser"])
prop("C04", {"operands": "all pairs of 32-bit numbers (** and symbolic*constant products: see harness), and all pairs of 3 (thorough 6) term types",
             "exponents": "<= 9, bases -9..9", "coefficients": "-5..5 when a product is inverted by matching (thorough -9..9)"},
     [H("arith.cc", "numbers-%d" % c, params=dict(ctx=c), reach=["defined", "undefined"], time=120) for c in range(5)]
     + [H("arith.cc", "types-%d" % c, params=dict(ctx=c, types=2), reach=["undefined"], time=120) for c in (0, 1, 4)]
     + [H("arith.cc", "alltypes-%d" % c, "thorough", params=dict(ctx=c, types=1), reach=["undefined"], time=600) for c in range(5)]
     + [H("arith.cc", "mul-%d" % c, "thorough", params=dict(ctx=c, op=2, coef=9, mulrange=2**31), reach=["defined"], time=800) for c in (1, 2, 3)],
     focus=["eval", "BinOp", "UnOp", "LinearTerm", "Arith"])
prop("C12", {"elements": "2", "weights and bounds": "-2..2, and all 32-bit numbers for single bounds without negation", "conditions": "open or facts", "tuples": "distinct or identified by weight"}, [
    H("bodyagg.cc", "sum", params=dict(fn=0, two=0, lo=-2, hi=2), reach=["end"], time=150),
    H("bodyagg.cc", "sum2", params=dict(fn=0, two=1, lo=-1, hi=2, sign=0), reach=["end"], time=150),
    H("bodyagg.cc", "sump", params=dict(fn=1, two=0, lo=-1, hi=2), reach=["end"], time=150),
    H("bodyagg.cc", "count", params=dict(fn=2, lo=0, hi=2), reach=["end"], time=150),
    H("bodyagg.cc", "min", params=dict(fn=3, lo=-2, hi=2), reach=["end"], time=150),
    H("bodyagg.cc", "max", params=dict(fn=4, lo=-2, hi=2), reach=["end"], time=150),
]
 + [H("bodyagg.cc", "big-%d%s" % (f, "f" * k), params=dict(fn=f, two=0, sign=0, tuple=0, facts=k, lo=-2**31, hi=2**31 - 1), reach=["end"], time=250) for f, k in ((0, 0), (0, 1), (2, 0), (3, 0), (4, 0))]
 + [H("bodyagg.cc", "big-1", "thorough", params=dict(fn=1, two=0, sign=0, tuple=0, lo=-2**31, hi=2**31 - 1), reach=["end"], time=800)]
 + [H("bodyagg.cc", "three-%d" % f, "thorough", params=dict(fn=f, n=3, lo=-2, hi=2, two=0, tuple=0), reach=["end"], time=700) for f in range(5)]
  + [H("bodyagg.cc", "wide-%d" % f, "thorough", params=dict(fn=f, n=2, lo=-4, hi=4), reach=["end"], time=800) for f in range(5)],
 focus=["Aggregate", "Interval"])

prop("C05", {"coefficients": "-3..3", "offsets": "-2..2", "values": "-20..20 (thorough -100..100 and the upper end of 32 bits)"},
     [H("linear.cc", "m%d" % m, params=dict(m=m, vlo=-20, vhi=20, nr=2), reach=["end"], time=90) for m in range(6)]
     + [H("linear.cc", "wide-m%d" % m, "thorough", params=dict(m=m, vlo=-100, vhi=100, nr=3), reach=["end"], time=600) for m in range(6)]
     + [H("linear.cc", "max-m%d" % m, "thorough", params=dict(m=m, vlo=2147483600, vhi=2147483647, nr=3), reach=["end"], time=600) for m in range(6)],
     focus=["Linear", "match", "rewriteArithmetics", "simplify"])
prop("C06", {"facts": "2", "nesting": "1", "arguments": "0..2", "numbers": "-1..2", "string bytes": "0..1 of any value"},
     [H("match.cc", "part%d" % i, params=dict(parts=8, part=i), reach=["end"], time=90) for i in range(8)]
     + [H("match.cc", "two-%d" % i, "thorough", params=dict(parts=8, part=i, two=2), reach=["end"], time=700) for i in range(8)],
     focus=["match", "Domain", "Index", "PredicateLiteral"])
prop("C07", {"bounds of ranges": "-2..2", "contexts": "34 rule schemata"},
     [H("pool.cc", "part%d" % i, params=dict(parts=6, part=i), reach=["end"], time=90) for i in range(6)]
     + [H("pool.cc", "wide-%d" % i, "thorough", params=dict(parts=6, part=i, lo=-4, hi=4), reach=["end"], time=700) for i in range(6)],
     focus=["unpool", "Range", "Dots", "Pool"])
prop("C08", {"chains": "2 links", "bounds": "-4..4", "symbols": "one per type"},
     [H("cmp.cc", "part%d" % i, params=dict(parts=8, part=i), reach=["end"], time=90) for i in range(8)]
     + [H("cmp.cc", "ineq%d" % i, params={"case": 19 + i}, reach=["end"], time=90) for i in range(2)]
     + [H("cmp.cc", "deep-%d" % i, "thorough", params=dict(parts=8, part=i, nc=4, w=2), reach=["end"], time=700) for i in range(8)]
     + [H("cmp.cc", "full32", "thorough", params={"case": 0, "lo": -2**31, "hi": 2**31 - 1}, reach=["end"], time=700)],
     focus=["Relation", "IESolver", "Range"])
prop("C10", {"facts": "3 over a domain of 3", "programs": "13 schemata, both orders"},
     [H("joins.cc", "part%d" % i, params=dict(parts=8, part=i), reach=["end"], time=90) for i in range(8)]
     + [H("joins.cc", "case%d" % i, "thorough", params=dict(case=i, n=4), reach=["end"], time=800) for i in range(13)],
     focus=["Instantiator", "Queue", "Domain", "instantiate", "propagate"])

prop("C11", {"facts": "3 pairs over a domain of 3", "programs": "15 schemata, both orders", "models": "all candidates"},
     [H("stable.cc", "part%d" % i, params=dict(parts=8, part=i), reach=["end"], time=110) for i in range(8)]
     + [H("stable.cc", "case%d" % i, "thorough", params=dict(case=i, n=4), reach=["end"], time=800) for i in range(15)],
     focus=["Choice", "Disjunction", "Translator", "Predicate", "instantiate"])

prop("C13", {"elements": "2 (3 atoms for plain sets)", "weights and bounds": "-1..2 (thorough -3..3)", "tuples": "distinct or identified by weight"},
     [H("headagg.cc", "guard-%d" % f, params=dict(kind=0, fn=f, lo=-1, hi=2), reach=["end"], time=110) for f in range(5)]
     + [H("headagg.cc", "set-%d" % t, params=dict(kind=1, lo=-1 + t, hi=2, two=t), reach=["end"], time=110) for t in range(2)]
     + [H("headagg.cc", "assign", params=dict(kind=2, lo=-2, hi=2), reach=["end"], time=110)]
     + [H("headagg.cc", "wide-%d-%d" % (k, f), "thorough", params=dict(kind=k, fn=f, lo=-3, hi=3), reach=["end"], time=800) for k in (0, 2) for f in range(5)],
     focus=["HeadAggregate", "Aggregate", "Interval", "Assignment"])

prop("C14", {"facts": "3 pairs over a domain of 3", "programs": "18 schemata, both orders", "models": "all candidates"},
     [H("cond.cc", "part%d" % i, params=dict(parts=6, part=i), reach=["end"], time=110) for i in range(6)]
     + [H("cond.cc", "case%d" % i, "thorough", params=dict(case=i, n=4), reach=["end"], time=800) for i in range(18)],
     focus=["Conjunction", "Disjunction", "Conditional", "Translator"])
prop("C23", {"elements": "2", "weights and bounds": "-1..2", "atoms": "3"},
     [H("recagg.cc", "case%d" % i, params=dict(parts=6, part=i), reach=["end"], time=110) for i in range(6)]
     + [H("recagg.cc", "wide%d" % i, "thorough", params=dict(case=i, lo=-2, hi=3), reach=["end"], time=800, path_insts=200000000) for i in range(6)],
     focus=["Aggregate", "SumTranslator", "MinMax"])

prop("C15", {"elements": "3", "weights": "-2..2 (thorough all 32-bit)", "priorities": "0..1", "tuple terms": "0..1"},
     [H("opt.cc", "case%d" % i, params=dict(case=i), reach=["end"], time=90) for i in range(7)]
     + [H("opt.cc", "full%d" % i, "thorough", params=dict(case=i, lo=-2**30, hi=2**30), reach=["end"], time=600) for i in range(7)],
     focus=["Minimize", "Weak", "Translator"])
prop("C17", {"facts": "3 pairs over a domain of 3", "programs": "18 schemata, both orders"},
     [H("direct.cc", "part%d" % i, params=dict(parts=9, part=i), reach=["end"], time=90) for i in range(9)]
     + [H("direct.cc", "case%d" % i, "thorough", params=dict(case=i, n=4), reach=["end"], time=600) for i in range(18)],
     focus=["Show", "Project", "External", "Heuristic", "Edge", "Symtab"])

prop("C20", {"facts": "2 pairs over a domain of 3", "programs": "35 schemata", "models": "all candidates of both programs"},
     [H("textout.cc", "part%d" % i, params=dict(parts=7, part=i), reach=["end"], time=140) for i in range(7)]
     + [H("textout.cc", "case%d" % i, "thorough", params=dict(case=i, n=3), reach=["end"], time=800, path_insts=200000000) for i in range(35)],
     focus=["print", "PrintPlain", "printPlain", "plainBounds", "Statement"])

prop("C16", {"facts": "1 to 2 pairs over a domain of 3", "programs": "19 schemata, parts parsed first or between the steps", "steps": "1 to 3, every partition", "cleanup": "with no, some or all consequences of the program known", "models": "all candidates of both programs"},
     [H("multishot.cc", "part%d" % i, params=dict(parts=10, part=i, n=1, queries=1), reach=["end"], time=130) for i in range(10)]
     + [H("multishot.cc", "more%d" % i, params=dict(case=i, n=2), reach=["end"], time=130) for i in (1, 2, 8, 11)]
     + [H("multishot.cc", "case%d" % i, "thorough", params=dict(case=i, n=2, queries=1), reach=["end"], time=800, insts=40000000000) for i in range(19)],
     focus=["Domain", "cleanup", "simplify", "translateMinimize", "updateCond", "endGround", "toGround", "atoms"])

prop("C18", {"rules": "24 schemata covering every kind of statement, literal and aggregate", "variables": "up to six occurrences, each any of 3 (thorough 4) variables"},
     [H("safety.cc", "part%d" % i, params=dict(parts=6, part=i), reach=["end"], time=130) for i in range(6)]
     + [H("safety.cc", "case%d" % i, "thorough", params=dict(case=i, letters=4), reach=["end"], time=800, insts=40000000000) for i in range(24)],
     focus=["check", "Levels", "simplify", "addToLinearTerm", "assignLevels", "collect"])

prop("C21", {"statements": "every kind, two per step, up to two heads, literals, arguments and elements over three atoms and numbers", "numbers": "-2..2 and the extreme values", "steps": "1 and 2", "graphs": "all dependencies between three (thorough four) atoms", "programs": "9 schemata over two pairs of a domain of 3"},
     [H("reify.cc", "stm%d" % k, params=dict(mode=0, kind=k, steps=0), reach=["end"], time=140) for k in range(10)]
     + [H("reify.cc", "steps%d" % k, params=dict(mode=0, kind=k, steps=1), reach=["end"], time=140) for k in (2, 3, 4, 8, 9)]
     + [H("reify.cc", "wide%d" % k, params=dict(mode=0, kind=k, steps=0, wide=1), reach=["end"], time=140) for k in (2, 5, 6)]
     + [H("reify.cc", "graph", params=dict(mode=1, nodes=3), reach=["end"], time=140),
        H("reify.cc", "options", params=dict(mode=2, D=1), reach=["end"], time=140)]
     + [H("reify.cc", "ground%d" % p, params=dict(mode=2, parts=3, part=p, sccs=1, steps=1, registered=0), reach=["end"], time=140) for p in range(3)]
     + [H("reify.cc", "all%d" % k, "thorough", params=dict(mode=0, kind=k, steps=1), reach=["end"], time=800, insts=40000000000) for k in (0, 1, 5, 6, 7)]
     + [H("reify.cc", "graph4", "thorough", params=dict(mode=1, nodes=4, steps=0), reach=["end"], time=800, insts=40000000000)]
     + [H("reify.cc", "ground-all%d" % k, "thorough", params=dict(mode=2, case=k), reach=["end"], time=800, insts=40000000000) for k in range(9)],
     focus=["Reifier", "tarjan", "BackendAdapter", "make_backend"])

prop("C09", {"definitions": "up to three constants, every kind of value, overridden or not", "programs": "9 schemata covering every place where terms occur", "symbols": "depth 2, with signs"},
     [H("consts.cc", "expand%d" % i, params=dict(mode=0, parts=8, part=i), reach=["end"], time=140) for i in range(8)]
     + [H("consts.cc", n, params=dict(mode=m), reach=["end"], time=140) for m, n in ((1, "priority"), (2, "symbols"), (3, "self"))]
     + [H("consts.cc", "case%d" % i, "thorough", params=dict(mode=0, case=i), reach=["end"], time=800, insts=40000000000) for i in range(9)],
     focus=["Defines", "replace", "collectIds"])

prop("C19", {"operators": "up to 3 (thorough 4) operands, priorities over all 32 bits", "definitions": "every type, place, guard, arity, missing and repeated definition", "programs": "12 schemata over facts with up to 2 (thorough 3) pairs over three values", "symbols": "one of each kind"},
     [H("theory.cc", "operators", params=dict(mode=0), reach=["end"], time=140)]
     + [H("theory.cc", "definitions%d" % p, params=dict(mode=1, part=p), reach=["end"], time=140) for p in range(3)]
     + [H("theory.cc", "part%d" % p, params=dict(mode=2, parts=4, part=p), reach=["end"], time=140) for p in range(4)]
     + [H("theory.cc", "operators-4", "thorough", params=dict(mode=0, operands=4, unary=0), reach=["end"], time=800, insts=40000000000),
        H("theory.cc", "unary-2", "thorough", params=dict(mode=0, operands=3, unary=2), reach=["end"], time=800, insts=40000000000)]
     + [H("theory.cc", "case%d" % c, "thorough", params=dict(mode=2, case=c, n=3), reach=["end"], time=800, insts=40000000000) for c in range(12)],
     focus=["Theory", "theory", "initTheory", "parse"])

prop("C22", {"programs": "10", "layouts": "9 in one gap (thorough two gaps)", "buffers": "ending at every byte", "bytes": "2 arbitrary bytes at 20 places (thorough 3)"},
     [H("layout.cc", "layout%d" % p, params=dict(mode=0, parts=5, part=p), reach=["end"], time=140) for p in range(5)]
     + [H("layout.cc", "buffer%d" % p, params=dict(mode=1, parts=3, part=p), reach=["end"], time=140) for p in range(3)]
     + [H("layout.cc", "bytes%d" % p, params=dict(mode=2, parts=4, part=p), reach=["accepted", "rejected"], time=140) for p in range(4)]
     + [H("layout.cc", "bytes3-%d" % c, "thorough", params=dict(mode=2, case=c, bytes=3), reach=["end"], time=800, insts=40000000000) for c in range(20)]
     + [H("layout.cc", "gaps-%d" % c, "thorough", params=dict(mode=0, case=c, gaps=2), reach=["end"], time=800, insts=40000000000) for c in range(10)],
     focus=["lex_impl", "NonGroundParser", "NonGroundGrammar", "LexerState"])
prop("C36", {"numbers": "up to 3 (thorough 4) arbitrary digits and extreme values", "elements": "2 (thorough 3)", "statements": "1 (thorough 2)", "changes": "one byte"},
     [H("aspif.cc", "statement%d" % p, params=dict(mode=0, parts=5, part=p, digits=3), reach=["accepted"], time=140) for p in range(5)]
     + [H("aspif.cc", "changed%d" % p, params=dict(mode=1, parts=3, part=p), reach=["accepted", "rejected"], time=140) for p in range(3)]
     + [H("aspif.cc", n, params=dict(mode=m), reach=["end"], time=140) for m, n in ((2, "truncated"), (3, "buffer"), (4, "files"), (5, "numbers"))]
     + [H("aspif.cc", "two%d" % k, "thorough", params=dict(mode=0, kind=k, digits=1, len=1, two=1), reach=["accepted"], time=800, insts=40000000000) for k in range(17)]
     + [H("aspif.cc", "long%d" % k, "thorough", params=dict(mode=0, kind=k, digits=4, len=3), reach=["accepted"], time=800, insts=40000000000) for k in range(17)],
     focus=["aspif", "NonGroundParser", "LexerState", "GroundTermParser"])

prop("C24", {"programs": "24 schemata with signs, relations, operators, functions and digits varied at 2 (thorough 3) places at once"},
     [H("ast.cc", "meaning%d" % p, tus="clingo", params=dict(mode=0, parts=8, part=p), reach=["accepted", "end"], time=200) for p in range(8)]
     + [H("ast.cc", "meaning-%d" % c, "thorough", tus="clingo", params=dict(mode=0, case=c, vary=3), reach=["end"], time=800, insts=40000000000) for c in range(24)],
     focus=["ASTBuilder", "ASTParser", "Input::parse", "deepcopy"])
prop("C25", {"programs": "24 schemata varied at 2 (thorough 3) places at once", "changes": "every attribute of every part of every statement", "comparison": "36 kinds of statements with symbolic digits, pairs and triples"},
     [H("ast.cc", "printing%d" % p, tus="clingo", params=dict(mode=1, parts=8, part=p), reach=["accepted", "end"], time=200) for p in range(8)]
     + [H("ast.cc", "copies%d" % p, tus="clingo", params=dict(mode=2, vary=1, parts=4, part=p), reach=["accepted", "end"], time=200) for p in range(4)]
     + [H("ast.cc", "order%d" % p, tus="clingo", params=dict(mode=3, parts=4, part=p), reach=["end"], time=200) for p in range(4)]
     + [H("ast.cc", "printing-%d" % c, "thorough", tus="clingo", params=dict(mode=1, case=c, vary=3), reach=["end"], time=800, insts=40000000000) for c in range(24)]
     + [H("ast.cc", "order-%d" % c, "thorough", tus="clingo", params=dict(mode=3, case=c, step=1), reach=["end"], time=800) for c in range(36)],
     focus=["astv2", "AST", "SAST", "operator<<"])

prop("C26", {"trees": "every part of five programs with all kinds of statements and terms", "list operations": "3 (thorough 4) at symbolic positions", "buffers": "0..2 around the announced size", "callbacks": "failing at every call with every code"},
     [H("capi.cc", "%s%d" % (n, c), tus="clingo", params=dict(mode=m, case=c, step=3), reach=["end"], time=200) for m, n, k in ((0, "attributes", 5), (1, "lists", 8), (2, "buffers", 5), (3, "building", 5), (4, "callbacks", 8)) for c in range(k)]
     + [H("capi.cc", "more-%d" % c, "thorough", tus="clingo", params=dict(mode=1, case=c, step=4), reach=["end"], time=800) for c in range(8)],
     focus=["clingo_ast", "get_attr", "ASTArgs"])
prop("C27", {"programs": "15 schemata with pools in every kind of statement and term, varied at 2 (thorough 3) places at once, digits 0..3"},
     [H("ast.cc", "pools%d" % c, tus="clingo", params=dict(mode=4, case=c, pin=1), reach=["end"], time=200) for c in range(15)]
     + [H("ast.cc", "pools-%d" % c, "thorough", tus="clingo", params=dict(mode=4, case=c, pin=1, vary=3), reach=["end"], time=800) for c in range(15)],
     focus=["unpool", "AST::update"])
prop("C35", {"sequence of calls": "limits absent, all 32-bit numbers, or something else; 2 (thorough 3) results; a failure at any call", "programs": "4 schemata with symbolic steps -1..3 and limits -1..4"},
     [H("inc.cc", "sequence", tus="clingo", params=dict(mode=0, n=2), reach=["end"], time=200)]
     + [H("inc.cc", "programs%d" % c, tus="clingo", params=dict(mode=1, case=c), reach=["end"], time=200) for c in range(4)]
     + [H("inc.cc", "sequence3", "thorough", tus="clingo", params=dict(mode=0, n=3), reach=["end"], time=800)],
     focus=["Incmode", "incmode", "pushBlock", "Step", "external"])
prop("C37", {"arguments": "symbolic, lists up to length 2 or 3", "failures": "every error code at every call", "operations": "every function; theory terms with numbers -1..1 and up to 3 arguments"},
     [H("capictl.cc", "statements%d" % p, tus="clingo", params=dict(mode=0, parts=4, part=p), reach=["end"], time=200) for p in range(4)]
     + [H("capictl.cc", "control%d" % p, tus="clingo", params=dict(mode=1, parts=4, part=p), reach=["end"], time=200) for p in range(4)]
     + [H("capictl.cc", "theory", tus="clingo", params=dict(mode=5), reach=["end"], time=200)]
     + [H("capictl.cc", "callbacks%d" % c, tus="clingo", params=dict(mode=6, case=c), reach=["end"], time=200) for c in range(9)],
     focus=["clingo_control", "clingo_backend", "Observer", "ClingoSolveEventHandler", "ClingoContext", "clingo_theory", "clingo_parse"])
prop("C38", {"arguments": "symbolic over their whole type, lists up to length 2 or 3", "failures": "every error code at every call", "buffers": "around the announced size"},
     [H("capictl.cc", "models%d" % p, tus="clingo", params=dict(mode=2, parts=4, part=p), reach=["end"], time=200) for p in range(4)]
     + [H("capictl.cc", "propagation%d" % p, tus="clingo", params=dict(mode=3, parts=4, part=p), reach=["end"], time=200) for p in range(4)]
     + [H("capictl.cc", "tables%d" % p, tus="clingo", params=dict(mode=4, parts=4, part=p), reach=["end"], time=200) for p in range(4)],
     focus=["clingo_model", "clingo_assignment", "clingo_propagate", "clingo_solve_handle", "clingo_configuration", "clingo_statistics", "clingo_symbolic", "clingo_program"])

prop("C28", {"lengths": "0..3", "slices": "all starts and stops within and one beyond the bounds, steps None, 1, -1, 2, -2 (3), slices of slices for length 2", "elements": "-5..5"},
     [PH("py_views.py", "one-%d" % k, params=dict(n=3, two=1, kind=k), reach=["end"], time=100) for k in range(4)]
     + [PH("py_views.py", "two-%d" % s, params=dict(n=2, two=2, kind=0, steps=4, step=s), reach=["end"], time=140) for s in range(4)]
     + [PH("py_mutate.py", "change-%d%d%d" % (k, v, o), params=dict(n=2, kind=k, view=v, op=o), reach=["end"], time=100) for k in (0, 1) for v in (0, 1) for o in range(11) if not (v and o in (5, 7))]
     + [PH("py_views.py", "deep-%d" % s, "thorough", params=dict(n=3, two=2, kind=0, steps=5, step=s), reach=["end"], time=800) for s in range(5)]
     + [PH("py_mutate.py", "three-%d%d%d" % (k, v, o), "thorough", params=dict(n=3, kind=k, view=v, op=o), reach=["end"], time=800) for k in (0, 1) for v in (0, 1) for o in range(11) if not (v and o in (5, 7))],
     focus=["util.py", "ast.py", "Sequence", "Trail", "Assignment"], common=PYCOMMON)
prop("C29", {"literals": "all 32-bit", "lengths": "0..2 (thorough 3)", "outcomes": "success or failure of the library"},
     [PH("py_backend.py", "backend", params=dict(observe=0), reach=["end"], time=140), PH("py_backend.py", "observer", params=dict(observe=1), reach=["end"], time=100),
      PH("py_backend.py", "backend-3", "thorough", params=dict(observe=0, len=3), reach=["end"], time=800), PH("py_backend.py", "observer-3", "thorough", params=dict(observe=1, len=3), reach=["end"], time=800)],
     focus=["backend.py", "_internal.py"], common=PYCOMMON)
prop("C30", {"assumptions": "0..2, literals over all 32 bits", "histories": "up to 2 (thorough 3) events in a search", "callbacks": "present or not, returning any kind of value or raising", "failures": "of each library call"},
     [PH("py_control.py", n, params=dict(case=c, falsy=1), reach=["end"], time=140) for c, n in enumerate(("solving", "result", "events", "grounding", "simple"))]
     + [PH("py_control.py", "solving-3", "thorough", params=dict(case=0, n=3), reach=["end"], time=800), PH("py_control.py", "events-3", "thorough", params=dict(case=2, events=3), reach=["end"], time=800)],
     focus=["control.py", "solving.py", "_internal.py"], common=PYCOMMON)
prop("C31", {"literals": "all 32-bit", "lengths": "0..2", "histories": "2 (thorough 3) events", "failures": "of each library call"},
     [PH("py_prop.py", n, params=dict(case=c), reach=["end"], time=140) for c, n in enumerate(("methods", "events"))]
     + [PH("py_prop.py", "events-3", "thorough", params=dict(case=1, events=3), reach=["end"], time=800)],
     focus=["propagator.py", "control.py", "_internal.py"], common=PYCOMMON)
prop("C32", {"statistics": "trees of depth 1 (thorough 2) with up to 2 entries, all updates of one entry", "configurations": "two options and an array of up to 2", "symbols": "one of each kind, all numbers", "atoms": "up to 3"},
     [PH("py_state.py", n, params=dict(case=c), reach=["end"], time=140) for c, n in enumerate(("statistics", "configuration", "symbols", "atoms", "theory"))]
     + [PH("py_state.py", "statistics-2", "thorough", params=dict(case=0, depth=2), reach=["end"], time=800)],
     focus=["statistics.py", "configuration.py", "symbol", "theory_atoms.py"], common=PYCOMMON)
prop("C33", {"nodes": "every constructor, lists of up to 2 elements", "trees": "terms of depth 2 with up to 2 arguments", "statements": "up to 3"},
     [PH("py_ast.py", "nodes-%d" % p, params=dict(case=0, parts=3, part=p), reach=["end"], time=140) for p in range(3)]
     + [PH("py_ast.py", n, params=dict(case=c + 1), reach=["end"], time=140) for c, n in enumerate(("transformer", "parsing", "unpooling"))],
     focus=["ast.py"], common=PYCOMMON)
prop("C34", {"callbacks": "each present or not, with the others all present or all missing, raising or not", "arguments": "up to 2"},
     [PH("py_app.py", n, params=dict(case=c), reach=["end"], time=140) for c, n in enumerate(("application", "script", "parse"))],
     focus=["application.py", "script.py", "symbol.py", "core.py"], common=PYCOMMON)
