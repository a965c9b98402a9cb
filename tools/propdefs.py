TECH = "symbolic execution of the real C++ sources (LLVM bitcode) with Z3, counterexamples replayed natively"
TECHPY = "symbolic execution of the real Python sources with Z3, counterexamples replayed under CPython"
NOTE = "Bounded: within the listed program shapes and value ranges every path of the real code is explored and every assertion discharged by Z3. Trusts clang's translation, the bitcode interpreter (cross-checked by replaying path models natively), the stand-in headers and Z3."
G = "libgringo/src/"
GH = "libgringo/gringo/"
PROPS = []


def P(id, title, statement, over, q, why, files, mech, obs, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, obs=obs, **kw))


P("C01", "Symbols are structurally equal or strictly ordered by the documented total order",
  "Two symbols compare equal exactly when they have the same structure, and equal symbols hash alike. Otherwise exactly one is less than the other, following the documented order: infimum, numbers by value, constants, strings, compound terms and supremum, where positive precedes negative, then arity, name and arguments decide. All six comparison operators agree with this order, and it is transitive.",
  ["inputs"], "all pairs and triples of symbols up to a nesting depth, arbitrary 32-bit numbers, arbitrary string bytes",
  "Tests compare a handful of fixed symbols; totality, transitivity and interning must hold for every pair or triple.",
  [G + "symbol.cc", GH + "symbol.hh"], [("tagged 64-bit representation with interned strings and functions", G + "symbol.cc"), ("less", G + "symbol.cc")],
  ["symbol comparison, equality and hash in the C, C++, Python and Lua APIs", "sorting of answers and aggregate order (#min/#max, comparison literals)"])
P("C02", "Symbols built through the API can be inspected back, and misuse reports errors",
  "Every symbol created through the C interface reports exactly the type, number, string, name, sign and arguments it was created from. Asking for a component that the symbol does not have fails with an error code and message and never returns a value. Its text has exactly the size announced beforehand, is read as the same symbol, and a too small buffer is rejected without writing outside it; signatures of every arity report what they were created from.",
  ["inputs"], "all symbol kinds, arbitrary numbers and strings, nested arguments, all buffer sizes",
  "Tests build a few symbols; the buffer protocol and the accessor/type matrix are quantified over all symbols and sizes.",
  ["libclingo/src/control.cc", G + "symbol.cc"], [("clingo_symbol_* functions", "libclingo/src/control.cc"), ("print_size / print", "libclingo/src/control.cc")],
  ["clingo_symbol_create_*, clingo_symbol_number/name/string/arguments/is_positive/is_negative, clingo_symbol_to_string(_size)"])
P("C03", "The text of a symbol denotes that symbol again",
  "Printing any symbol and reading the text back, either with the ground term parser or as a fact in a program, yields the identical symbol. This includes strings with quotes, backslashes, newlines and arbitrary bytes, nested tuples, one-element tuples, the empty tuple, and negative numbers and functions.",
  ["inputs"], "all symbols up to a nesting depth, strings of arbitrary bytes up to a length, numbers",
  "Tests print a few terms; escaping and tuple syntax must round trip for every content.",
  [G + "symbol.cc", GH + "symbol.hh", G + "input/groundtermparser.cc", G + "input/groundtermlexer.xh", G + "input/groundtermgrammar.yy", G + "input/nongroundlexer.xch"],
  [("Symbol::print, quote, unquote", "libgringo/gringo/symbol.hh"), ("ground term lexer and grammar", G + "input/groundtermgrammar.yy")],
  ["clingo_symbol_to_string, clingo_parse_term, program text"])
P("C04", "Arithmetic terms evaluate to their 32-bit value or are undefined",
  "A ground arithmetic term denotes the 32-bit two's complement result of its operation, division truncates toward zero and remainders match it. If an operand is not a number, a divisor is zero, or zero is raised to a negative power, the term is undefined: the instance (or aggregate element) is dropped, an operation-undefined message is issued, and nothing else changes. This holds in heads, bodies, assignments, nested arguments, body atoms that are matched and aggregate tuples, whether operands are program constants or variables.",
  ["inputs", "programs"], "all operators, all operand types, arbitrary 32-bit operands, all contexts, constant or variable operands",
  "Tests evaluate a few constants; overflow, sign and zero corner cases exist only for particular operand pairs.",
  [G + "term.cc", GH + "term.hh", G + "ground/literals.cc"], [("eval(BinOp/UnOp)", G + "term.cc"), ("LinearTerm, arithmetic rewriting", G + "term.cc")],
  ["ground rules and shown symbols", "operation-undefined messages"])
P("C12", "Body aggregates hold exactly when their value satisfies the guards",
  "For every selection of the element conditions, a rule with a #sum, #sum+, #count, #min or #max body aggregate fires in the resulting ground program exactly when the aggregate over the set of tuples whose conditions hold satisfies all its guards, respecting (double) default negation, and the translation adds no further stable models and removes none. Sums whose weights and bounds do not fit into 32-bit numbers either have this meaning, too, or stop grounding with an overflow error.",
  ["programs", "inputs"], "all aggregate functions, guard relations, negation forms, weights and bounds in the range, all truth assignments to the element conditions",
  "Tests check fixed programs with fixed weights; the translation's case splits on signs, bounds and interval arithmetic depend on arbitrary weights.",
  [G + "output/literals.cc", G + "output/aggregates.cc", G + "ground/statements.cc", G + "input/aggregates.cc", GH + "intervals.hh"],
  [("aggregate bounds and ranges", G + "output/aggregates.cc"), ("translation of body aggregates", G + "output/literals.cc")],
  ["rules, weight rules and auxiliary atoms received by the backend", "answer sets"])
P("C05", "Linear argument terms match exactly the integers that solve them",
  "An atom with an integer argument of the form m*X+n in a rule body binds X to exactly those integers for which the value of the argument equals the value of a known fact, whatever the spelling, position and sign of the coefficients. Facts that are not integers or not divisible do not match. The same holds for equations between a variable and a linear term, in either direction, and when X is bound elsewhere.",
  ["inputs", "programs"], "all spellings, coefficients -3..3, offsets and fact values in the range, extreme 32-bit values",
  "Tests use a few coefficients and values; divisibility, signs and overflow only show for specific combinations.",
  [G + "term.cc", GH + "term.hh", G + "ground/literals.cc"], [("LinearTerm/GLinearTerm match and eval", G + "term.cc"), ("rewriting of arithmetic in arguments", G + "term.cc")],
  ["ground rules, shown symbols"])
P("C06", "Body atoms are matched against all and only the derived atoms they unify with",
  "A rule is instantiated for exactly those combinations of derived atoms that its positive body literals match. Variables bind to whole terms and repeated variables must agree, anonymous variables match anything, function names, arity and sign must coincide, and literals under default negation exclude exactly the matching instances.",
  ["inputs", "programs"], "patterns with variables, constants, nested and negated functions, tuples; facts with arbitrary symbolic arguments of all types",
  "Tests use fixed facts; index structures and partial matches depend on the shape of every stored atom.",
  [G + "term.cc", GH + "ground/literals.hh", GH + "domain.hh", G + "ground/literals.cc"],
  [("match/unify of terms", G + "term.cc"), ("bind and full indices over the atom bases", GH + "domain.hh"), ("predicate literals", G + "ground/literals.cc")],
  ["ground rules, shown symbols"])
P("C07", "Ranges and pools expand to exactly their elements in every context",
  "A range l..u stands for the integers from l to u, and nothing if l exceeds u or a bound is not an integer; a pool (s;t) stands for each of its alternatives. This holds in heads, bodies, negated literals, assignments, aggregates, arguments and nested terms, whether the bounds are constants or variables.",
  ["inputs", "programs"], "all contexts, bounds in -2..2 and as constants or variables",
  "Tests enumerate a few fixed ranges; empty, overlapping and negative ranges need all bounds.",
  [G + "term.cc", G + "input/literals.cc", G + "ground/literals.cc", G + "input/program.cc"], [("unpool", G + "term.cc"), ("DotsTerm and range literals", G + "ground/literals.cc")],
  ["ground rules, shown symbols, operation-undefined messages"])
P("C08", "Comparisons and chains hold exactly as the term order says",
  "A comparison literal selects exactly the instances for which every link of its chain holds in the total order of terms, and its (double) negation selects the complement. Assignments bind variables to exactly one value. Integer bounds on variables that are not bound otherwise enumerate exactly the integers in the bounded range.",
  ["inputs", "programs"], "all relations, chains of two, all symbol types, bounds in -4..4, constants or variables",
  "Tests check single comparisons; negated chains, mixed types and bound propagation depend on all combinations.",
  [G + "input/literals.cc", G + "ground/literals.cc", G + "term.cc"], [("relation literals and rewriting of chains", G + "input/literals.cc"), ("IESolver bound propagation", G + "term.cc")],
  ["ground rules, shown symbols"])
P("C10", "Grounding computes exactly the well-founded closure of stratified programs",
  "For stratified programs over facts, including joins, recursion of any kind, mutual recursion, function symbols, arithmetic and negation of completed predicates, the derived facts are exactly those of the program's perfect model, each once. The result does not depend on the order of facts and rules.",
  ["programs", "inputs", "histories"], "thirteen program schemata with facts over symbolic values (all graphs with up to three edges over three nodes)",
  "Tests check fixed graphs; semi-naive evaluation can miss joins only for particular orders in which atoms arrive.",
  [G + "ground/instantiation.cc", G + "ground/program.cc", G + "ground/statements.cc", GH + "domain.hh", GH + "graph.hh", G + "input/program.cc"],
  [("semi-naive instantiation with old/new atoms", G + "ground/instantiation.cc"), ("component order", G + "ground/program.cc")],
  ["ground rules, facts, shown symbols"])
P("C11", "The ground program has exactly the stable models of the source program",
  "For programs with default negation (also double and in heads), choices, constraints, classical negation and positive or negative loops, the ground program handed to the solver has exactly the stable models of the first-order source program, projected to its visible atoms, each once. An atom and its classical negation are never both true. Simplifications made while grounding do not depend on the order of the statements.",
  ["programs", "inputs", "histories"], "fifteen program schemata with facts over symbolic values (all graphs with up to three edges over three nodes)",
  "Tests compare answer sets of fixed instances; grounding simplifies rules depending on which atoms are known when.",
  [G + "ground/statements.cc", G + "ground/literals.cc", G + "output/statements.cc", G + "output/output.cc", G + "output/literals.cc", G + "input/program.cc"],
  [("accumulation of rules and fact simplification", G + "ground/statements.cc"), ("translation of rules", G + "output/statements.cc"), ("classical negation constraints", G + "output/output.cc")],
  ["rules received by the backend", "answer sets"])
P("C13", "Head aggregates admit exactly the choices that satisfy their guards",
  "A rule with an aggregate or a set with bounds in its head, whose body holds, lets the atoms of exactly those elements be chosen whose conditions hold, and admits exactly the selections whose aggregate value satisfies all guards. If the body does not hold, nothing is derived or excluded. A variable assigned from a body aggregate takes exactly the value of that aggregate in every stable model.",
  ["programs", "inputs"], "all functions, relations, weights and bounds in the range, conditional elements, coinciding atoms and tuples",
  "Tests check a few fixed bounds; sign and overlap of weights and coinciding atoms change the translation.",
  [G + "output/literals.cc", G + "output/aggregates.cc", G + "ground/statements.cc", G + "input/aggregates.cc"],
  [("translation of head aggregates", G + "output/literals.cc"), ("assignment aggregates", G + "output/literals.cc"), ("accumulation of elements", G + "ground/statements.cc")],
  ["rules received by the backend", "answer sets"])
P("C14", "Conditional literals and disjunctions mean what they expand to",
  "A conditional literal in a body holds exactly when its literal holds for every instance of its condition, also if the condition is not decided during grounding or has no instances. In a head it contributes one disjunct per instance, and a disjunction with no disjunct is a constraint. The stable models of disjunctive programs are the minimal models of the reduct, also for recursive disjunctions.",
  ["programs", "inputs"], "eighteen schemata over all graphs with up to three edges over three nodes, facts before or after the rules",
  "Tests fix conditions and instances; conditions are accumulated incrementally and simplified depending on the order in which atoms arrive.",
  [G + "ground/statements.cc", G + "output/literals.cc", G + "output/statements.cc", G + "input/literals.cc", G + "input/aggregates.cc"],
  [("accumulation of conditional literals", G + "ground/statements.cc"), ("translation of conjunctions and disjunctions", G + "output/literals.cc")],
  ["rules received by the backend", "answer sets"])
P("C23", "Recursive aggregates have exactly the stable models of their semantics",
  "If an aggregate in a rule body depends, positively or under negation, on atoms that the rule itself helps to define, the ground program has exactly the stable models of the aggregate semantics: an interpretation is stable if it is a minimal model of the rules whose bodies it satisfies. This holds for monotone, antimonotone and nonmonotone aggregates.",
  ["programs", "inputs"], "six recursive schemata, all functions and relations, weights and bounds in the range",
  "Tests check fixed weights; nonmonotone aggregates are translated differently depending on signs and bounds.",
  [G + "output/aggregates.cc", G + "output/literals.cc"],
  [("AggregateAnalyzer: monotonicity", G + "output/aggregates.cc"), ("SumTranslator and min/max translation", G + "output/aggregates.cc")],
  ["rules received by the backend", "answer sets"])
P("C15", "Optimization statements assign every model exactly its documented cost",
  "For every model and priority level, the literals and weights passed to the solver sum up to the total weight of the distinct tuples of weight, priority and terms for which some condition holds in the model, over all minimize statements and weak constraints, and with negated weights for maximize statements. Optimization statements do not change the set of models.",
  ["programs", "inputs"], "seven schemata with three elements, weights, priorities and terms over the range, tuples equal or distinct",
  "Tests have fixed weights; tuples that coincide only for some values must be counted once.",
  [G + "output/statements.cc", G + "ground/statements.cc", G + "input/programbuilder.cc"],
  [("translateMinimize", G + "output/statements.cc"), ("WeakConstraint", G + "output/statements.cc")],
  ["minimize statements received by the backend", "costs of answers"])
P("C17", "Directives take effect for exactly the instances they cover",
  "Show, project, external, heuristic, edge and defined directives apply to exactly the instances of their bodies: in every model the shown symbols, projected atoms, external atoms with their values, active heuristic modifiers and active edges are those that the directives prescribe, and nothing else is shown once a show directive is present. Distinct nodes get distinct identifiers. Atoms without definition are reported unless declared.",
  ["programs", "inputs"], "eighteen schemata over all graphs with up to three edges over three nodes, facts before or after the directives",
  "Tests check the text of fixed instances; duplicates, merging of conditions and the order of directives matter for particular inputs.",
  [G + "ground/statements.cc", G + "output/statements.cc", G + "output/output.cc", G + "input/program.cc", G + "input/programbuilder.cc"],
  [("showing of atoms and terms", G + "output/statements.cc"), ("external, heuristic, project and edge statements", G + "ground/statements.cc"), ("checking of undefined atoms", G + "output/output.cc")],
  ["output, project, external, heuristic and edge statements received by the backend", "answer sets", "messages"])
P("C20", "The ground program printed as text means the same as the one given to solvers",
  "The text printed for a ground program, read as a program again, has the same stable models with the same shown symbols, costs, heuristic modifiers, edges and theory atoms, and the same external and projected atoms as the ground program passed to a solver. The definitions printed for delayed literals stand for these literals.",
  ["programs", "inputs"], "35 schemata over facts with up to two pairs over three values, all bounds in the range",
  "Tests compare the text with fixed text; bounds, signs, conditions and quoting depend on the values that occur.",
  [G + "output/statements.cc", G + "output/literals.cc", G + "output/output.cc", G + "output/theory.cc", G + "symbol.cc"],
  [("printPlain of statements and literals", G + "output/literals.cc"), ("bounds of printed aggregates", G + "output/literals.cc"), ("printing of statements", G + "output/statements.cc")],
  ["ground text", "statements received by the backend", "answer sets"])
P("C16", "Grounding in several steps means the same as grounding all parts at once",
  "However the parts of a program that builds on earlier parts are distributed over grounding steps, whether they are read first or between the steps, and whether or not atoms whose values a solver has derived are cleaned up between the steps, the statements passed to the solver so far have the stable models, shown symbols, costs, heuristic modifiers, externals and projected atoms of the program all parts grounded so far make up. External atoms stay open until they are defined or released, and the symbols reported for a model are exactly the shown ones.",
  ["programs", "inputs", "histories"], "nineteen schemata with a base part and a part with a parameter, facts over up to two pairs, all partitions into steps, cleanup with no, some or all consequences known",
  "Tests fix few histories; which atoms are new, facts, deleted or renumbered in a step depends on the history.",
  [G + "ground/statements.cc", G + "ground/program.cc", G + "output/output.cc", G + "output/statements.cc", G + "output/literals.cc", GH + "domain.hh", "libclingo/src/clingocontrol.cc"],
  [("domains with atoms of earlier steps", GH + "domain.hh"), ("cleanup of domains", G + "output/literals.cc"), ("extending minimize constraints, show statements", G + "output/statements.cc"), ("classical negation between steps", G + "output/output.cc")],
  ["statements received by the backend", "answer sets", "symbols of models"])
P("C18", "A program is accepted exactly if all variables of its statements are bound",
  "A statement whose variables can all be bound by positive literals, invertible equations and assignments, directly or through other bound variables and with local variables bound in their own conditions, is accepted and grounded. A statement with a variable that cannot be bound is rejected with an error, and the error names exactly the unbound variables.",
  ["programs"], "24 schemata covering each kind of statement, literal and aggregate, with every choice of up to three variables for up to six occurrences",
  "Tests give a few safe and unsafe rules; dependencies between equations, aggregates and local scopes depend on which occurrences share a variable.",
  [GH + "safetycheck.hh", G + "input/program.cc", G + "input/statement.cc", G + "input/literals.cc", G + "input/aggregates.cc", G + "term.cc"],
  [("safety check levels", G + "input/statement.cc"), ("safety of conditions and aggregates", G + "input/aggregates.cc"), ("binding and non-binding occurrences in terms", G + "term.cc")],
  ["acceptance of the program", "error messages"])
P("C21", "The reified output describes exactly the ground program given to the output",
  "The facts written by the reified output, read as a set of facts, describe exactly the statements of the ground program: rules with heads, bodies, weights and bounds, minimize, project, show, external, assumption, heuristic and edge statements, and theory terms, elements and atoms. With step numbers this holds for every step by itself. If requested, the non-trivial strongly connected components of the positive dependencies are reported exactly, otherwise none are.",
  ["programs", "inputs", "histories"], "two statements of any kind over a few atoms and numbers in one or two steps, all dependency graphs over three atoms, nine schemata of programs with all options",
  "Tests compare a few outputs with fixed text; whether a set of facts keeps all information, like the weights of repeated literals, depends on the statements.",
  ["libreify/src/program.cc", "libreify/reify/program.hh", "libreify/reify/util.hh", GH + "graph.hh", G + "output/output.cc"],
  [("tuples and statements as facts", "libreify/src/program.cc"), ("strongly connected components", GH + "graph.hh"), ("selection of outputs and their options", G + "output/output.cc")],
  ["text of the reified output"])
P("C09", "Constants are replaced by their values everywhere terms occur and nowhere else",
  "Grounding a program with constant definitions gives what grounding the program with the values in place of the constants gives: constants are replaced in all terms, including terms of other definitions and nested symbols with their signs, but names of predicates, functions and theory atoms never change. A definition given from outside overrides a default one and definitions that clash are reported. Cyclic definitions are reported.",
  ["programs", "inputs"], "up to three constants with every kind of value and dependency, nine schemata covering every place for terms",
  "Tests use a few definitions; which names are constants and how values nest is up to the user.",
  [G + "term.cc", GH + "term.hh", G + "input/program.cc", G + "input/literals.cc", G + "input/aggregates.cc", G + "input/statement.cc"],
  [("Defines::init orders and checks definitions", G + "term.cc"), ("Defines::apply and replace of terms", G + "term.cc"), ("replace of statements", G + "input/statement.cc")],
  ["ground program", "errors"])
P("C19", "Theory atoms are read and instantiated as their definitions say",
  "Theory terms are parsed into the tree given by the priorities and associativities of their operators. A theory atom is accepted exactly if its definition allows the place, arity, guard and operators of its use and defines its terms, and repeated definitions are reported. The theory atoms of the ground program have exactly the elements, conditions, terms and guards that the instances of the rule describe, and hold in models like any other atom of a rule.",
  ["programs", "inputs"], "three operands with arbitrary priorities, all combinations of definition and use, twelve schemata over all facts with up to two pairs over three values",
  "Tests use a few terms and definitions; priorities, conditions and values are arbitrary.",
  [G + "output/theory.cc", G + "input/theory.cc", G + "terms.cc", G + "ground/statements.cc", G + "output/literals.cc"],
  [("TheoryParser", G + "output/theory.cc"), ("TheoryAtom::initTheory", G + "input/theory.cc"), ("TheoryAccumulate, TheoryComplete, TheoryRule", G + "ground/statements.cc"), ("TheoryData", G + "output/theory.cc")],
  ["theory terms, elements and atoms received by the backend", "errors"])
P("C22", "Reading a program does not depend on layout, comments or buffers",
  "A program reads the same whatever white space, line ends, line comments and nested block comments separate its tokens and however its text is split when it is loaded, and the positions reported for its parts are the ones in the text. Texts that are no programs are reported as errors at the place where reading stopped, never read beyond their end and never raise internal errors.",
  ["inputs"], "ten programs covering the statements of the language, every gap with every kind of layout, the end of the buffer at every byte, and arbitrary bytes at twenty places",
  "Tests read fixed texts; buffers end wherever a file happens to be long enough, and most bytes never occur.",
  [G + "input/nongroundlexer.xch", G + "input/nongroundgrammar.yy", G + "input/nongroundparser.cc", GH + "lexerstate.hh"],
  [("scanner", G + "input/nongroundlexer.xch"), ("buffer and positions", GH + "lexerstate.hh"), ("grammar", G + "input/nongroundgrammar.yy")],
  ["program as printed", "messages", "memory accesses"])
P("C36", "Ground programs in aspif format reach the solver exactly as written",
  "Every statement of a ground program in aspif format, with any numbers, texts and literals, is passed on with exactly these values and in this order, steps are opened and closed once, and further files continue the program. A text that departs from the format is rejected with a message, wherever it does and wherever it ends.",
  ["inputs"], "all kinds of statements with symbolic numbers and up to two elements, every single byte of seven programs replaced, inserted or removed, every truncation, and buffers ending anywhere",
  "Tests read a few fixed statements; numbers, texts and the end of the buffer vary with every program.",
  [G + "input/nongroundlexer.xch", GH + "lexerstate.hh", G + "input/nongroundparser.cc", G + "input/groundtermparser.cc"],
  [("reading of statements", G + "input/nongroundlexer.xch"), ("buffer", GH + "lexerstate.hh")],
  ["statements received by the backend", "errors"])
L = "libclingo/src/"
P("C24", "Programs added as syntax trees mean what their text means",
  "Reading a program into syntax trees and adding the trees gives the same ground program, acceptance and messages with the same positions as reading the program directly, and so do adding the trees once more and adding deep copies of them. Positions in the trees run from left to right and lie within the positions of the statements around them.",
  ["programs"], "24 program schemata covering every statement, literal, aggregate, theory and term, with up to two signs, relations, operators, functions or digits varied at once",
  "Tests convert a few fixed statements; every combination of language elements has its own path through both builders.",
  [L + "astv2_build.cc", L + "astv2_parse.cc", L + "astv2.cc", "libclingo/clingo/astv2.hh", G + "input/nongroundgrammar.yy", G + "input/programbuilder.cc"],
  [("from text to trees", L + "astv2_build.cc"), ("from trees to programs", L + "astv2_parse.cc")],
  ["ground program", "messages", "positions"])
P("C25", "Syntax trees print as the programs they stand for, copy and compare soundly",
  "The text of syntax trees is read as equal trees, prints alike again, and has the same ground program. Copies are equal to the original, deep copies share nothing with it and changing any attribute of any part leaves the original alone; comparison is a total order that ignores positions, and equal trees have equal hashes. Functions of theory terms without arguments, which print like constants, are excluded.",
  ["programs", "inputs"], "the program schemata of the previous property, every attribute of every part of their statements changed, and pairs and triples of 36 kinds of statements",
  "Tests print a few fixed statements; missing separators or parentheses only matter for particular nestings.",
  [L + "astv2_str.cc", L + "astv2.cc", L + "astv2_build.cc", "libclingo/clingo/astv2.hh"],
  [("printing", L + "astv2_str.cc"), ("copies and comparison", L + "astv2.cc")],
  ["text", "equality", "hashes", "ground program"])
P("C26", "The C interface to syntax trees reads, changes and builds what it is told",
  "Reading an attribute with the accessor of its type gives its value and reading it with any other accessor fails; changing, inserting and deleting elements changes exactly those, positions outside are refused, and every text fits the buffer of the announced size or is refused. Building a tree from arguments gives a tree with exactly these attributes or an error for arguments that cannot be, failing callbacks end parsing and replacing pools with their error, and no operation leaks or loses a reference to a tree.",
  ["inputs", "histories"], "every attribute of every tree of five programs, sequences of list operations at symbolic positions, buffer sizes, every constructor, and callbacks failing at every call",
  "Tests use well-behaved Python code on top; positions outside, short buffers, wrong accessors and failing callbacks are the interesting cases.",
  [L + "control.cc", L + "astv2.cc", L + "astv2_build.cc", "libclingo/clingo.h"],
  [("accessors", L + "control.cc"), ("construction", L + "astv2_build.cc")],
  ["attributes", "errors", "text", "references"])
P("C27", "Replacing pools in trees gives statements without pools that mean the same",
  "Replacing the pools of a statement gives statements without pools, in place of which the program has the same answer sets, shown terms, costs, externals, projected atoms, edges and heuristics; statements without pools and the statement itself stay as they were. For conditional literals, replacing only what is in the condition and only what is outside of it changes nothing else, and one after the other gives the same as both at once.",
  ["programs"], "program schemata with pools in every kind of statement, literal, aggregate and term, with signs, relations, functions and digits varied",
  "Tests compare the text of results for simple statements; products of pools in different places and what they mean are not checked.",
  [L + "astv2_unpool.cc", L + "astv2.cc", L + "astv2_parse.cc"],
  [("unpooling", L + "astv2_unpool.cc")],
  ["trees", "answer sets"])
P("C35", "Iterative solving takes steps in order and stops exactly when it is told to",
  "For every choice of limits, stop criterion and results, iterative solving grounds the base and check parts first and the step and check parts of one step after the other, keeps the query true in exactly the current step, and ends after the minimum number of steps as soon as the result is the one to stop at or the maximum is reached. A failing call ends the search with its error, and for programs that ask for it the steps with solutions are those where the problem has one.",
  ["histories", "programs"], "limits that are absent, arbitrary numbers or other terms, all stop criteria, all sequences of results, a failure at every call, and program schemata whose solvable steps are symbolic",
  "Tests run one or two programs to their first solution; limits, other stop criteria and unknown results are rarely exercised.",
  [L + "incmode.cc", G + "input/nongroundparser.cc", G + "output/output.cc", G + "input/program.cc"],
  [("the loop", L + "incmode.cc"), ("steps of programs", G + "input/program.cc")],
  ["calls", "answer sets of each step"])
P("C37", "The C interface passes programs and queries on unchanged, with their errors",
  "Statements added through the backend of the C interface reach registered observers as they were given, and every function of the control interface passes its arguments on unchanged, gives the result back unchanged, and fails exactly if what it calls fails, with the code and message of that failure. Callbacks given to it for grounding, observing, solving and parsing are called with what they registered for, and their failures end the operation with their error.",
  ["inputs", "histories"], "every function of the control, backend, observer, solve and script interfaces with symbolic arguments and a symbolic failure of the functions below, and theory terms and atoms that are built and read back",
  "Tests call most functions once with fixed values that succeed; swapped arguments, lost flags and swallowed errors need other values.",
  [L + "control.cc", "libclingo/clingo/control.hh", "libclingo/clingo.h", G + "output/theory.cc", "libgringo/gringo/backend.hh"],
  [("forwarding", L + "control.cc"), ("statements", "libclingo/clingo/control.hh"), ("theory data", G + "output/theory.cc")],
  ["calls", "arguments", "results", "errors"])
P("C38", "Models, assignments, propagators, options and atoms are seen unchanged through C",
  "Every function of the C interface that inspects or extends models, assignments, propagators, configurations, statistics and symbolic atoms passes its arguments on unchanged and gives the result back unchanged, for all values including those of 64 bits. It fails exactly if what it calls fails, with the code and message of that failure, and writes into buffers only what fits them.",
  ["inputs", "histories"], "every such function with symbolic arguments, results and failures, and buffers of every size around the one needed",
  "Tests use small values that succeed; narrowed numbers, swapped arguments and short buffers go unnoticed.",
  [L + "control.cc", "libclingo/clingo/control.hh", "libclingo/clingo.h"],
  [("models and solving", L + "control.cc"), ("propagators", "libclingo/clingo/control.hh"), ("options and statistics", L + "control.cc")],
  ["calls", "arguments", "results", "errors"])
PY = "libpyclingo/clingo/"
P("C28", "Sequences of the Python package and slices of them behave like lists",
  "Indexing, slicing, iterating, reversing and searching sequences provided by the Python package, and slices of such sequences, gives what the same operation gives on a list with the same elements, and fails for positions outside. Modifying a sequence of an abstract syntax tree, directly or through a slice, changes exactly the elements that the same operation changes in a list, and positions outside never reach the library.",
  ["inputs", "histories"], "all sequences up to length three, all slices with bounds up to one beyond the ends, slices of slices, and all modifications",
  "Tests use a few fixed slices; negative steps, empty slices and positions at the ends are the interesting cases.",
  [PY + "util.py", PY + "ast.py", PY + "propagator.py", PY + "solving.py"],
  [("slices", PY + "util.py"), ("sequences of syntax trees", PY + "ast.py"), ("trail and assignment", PY + "propagator.py")],
  ["elements", "exceptions", "calls of the library"])
P("C29", "Statements pass unchanged between Python and the grounder's backend",
  "Every statement added with the Python backend reaches the library with exactly the given literals, weights, types and flags in order, a failure of the library is raised as an exception, and the backend is closed afterwards. Every statement that the library reports to an observer written in Python reaches its method with exactly these values, and only overridden methods are called.",
  ["inputs", "histories"], "all statements with all 32-bit literals and up to two elements, and failures",
  "Tests add few statements; swapped or truncated arguments of rarely used statements are not noticed.",
  [PY + "backend.py", PY + "_internal.py", PY + "control.py"],
  [("backend", PY + "backend.py"), ("observer callbacks", PY + "backend.py"), ("error handling", PY + "_internal.py")],
  ["calls of the library", "arguments of observer methods", "exceptions"])
P("C30", "Solving and grounding from Python passes everything to and from the library",
  "Assumptions, clauses, program parts and their arguments given in Python reach the library unchanged, with unknown atoms being false; results, models and cores reported by the library are returned unchanged. Callbacks are called with exactly the reported events, their return values decide whether the search continues, and the first exception raised in a callback is raised by the call that triggered it. Failures of the library are raised and every search is closed.",
  ["inputs", "histories"], "all literals, up to two assumptions, all histories of two events with any callbacks, return values, exceptions and failures",
  "Tests sample a few calls; combinations of callbacks that raise and failing library calls are not tried.",
  [PY + "control.py", PY + "solving.py", PY + "_internal.py", PY + "symbolic_atoms.py"],
  [("solving and events", PY + "control.py"), ("ground callback", PY + "control.py"), ("error handling", PY + "_internal.py"), ("models and results", PY + "solving.py")],
  ["calls of the library", "results", "exceptions"])
P("C31", "Propagators written in Python see and do exactly what the solver is told",
  "Clauses, watches, literals and constraints added by a propagator written in Python reach the solver unchanged with the requested kind of clause, and values, levels and decisions are reported as they are. Exactly the implemented methods of a propagator are registered, they are called with the changes the solver reports, and exceptions they raise end the search and are raised to the caller.",
  ["inputs", "histories"], "all methods with all literals, and all histories of two events with any set of methods that raise or not",
  "Tests implement few propagators; confusing similar methods or flags goes unnoticed.",
  [PY + "propagator.py", PY + "control.py", PY + "_internal.py"],
  [("initialization and control of propagators", PY + "propagator.py"), ("registration", PY + "control.py")],
  ["calls of the library", "arguments of methods", "exceptions"])
P("C32", "Python shows symbols, atoms, options and statistics as the library has them",
  "Symbols, symbolic and theory atoms, configurations and statistics read in Python are those of the library, lookups and signatures select exactly the matching entries, and accessing what is not there raises an exception. Assigning, appending and updating statistics or options changes exactly the addressed entries, and the changes are visible afterwards.",
  ["inputs", "histories"], "trees with up to two entries per level and all updates of one entry, atoms over up to three instances, all numbers",
  "Tests read statistics of a few runs; updates of nested values have many shapes.",
  [PY + "statistics.py", PY + "configuration.py", PY + "symbol.py", PY + "symbolic_atoms.py", PY + "theory_atoms.py"],
  [("statistics", PY + "statistics.py"), ("configuration", PY + "configuration.py"), ("symbols", PY + "symbol.py")],
  ["values read", "calls of the library", "exceptions"])
P("C33", "Syntax trees in Python keep what they are built from and change only as asked",
  "Every node built in Python has exactly the attributes it was built from, in the order of its constructor; updating or copying a node leaves the original unchanged, shallow copies share and deep copies do not share children. Transformers replace exactly the nodes for which they define methods and keep unchanged trees. Parsing calls back with every statement in order and raises exceptions of the callback.",
  ["inputs", "histories"], "all 46 constructors with any numbers and lists of up to two elements, terms of depth two, programs of three statements",
  "Tests construct each node once; attributes of the same type can be swapped and copies can share unnoticed.",
  [PY + "ast.py", "libclingo/src/control.cc"],
  [("constructors and attributes", PY + "ast.py"), ("transformers", PY + "ast.py"), ("tables of attributes and constructors", "libclingo/src/control.cc")],
  ["attributes of nodes", "exceptions"])
P("C34", "Applications and scripts written in Python are called as the library asks",
  "Exactly the functions defined by an application or a script are registered, they are called with the given files, options, models, messages and arguments, and their results are returned unchanged. Functions of scripts may return one symbol or any collection of symbols, and exceptions are reported as errors with their text.",
  ["inputs", "histories"], "every callback present or not and raising or not, all results of functions with up to two arguments",
  "Tests run few applications; which callbacks are overridden and how they fail is not varied.",
  [PY + "application.py", PY + "script.py", PY + "core.py", PY + "symbol.py"],
  [("registration of applications", PY + "application.py"), ("scripts", PY + "script.py"), ("loggers", PY + "core.py")],
  ["calls of functions", "results", "error messages"])
for p in PROPS:
    if p["files"][0].startswith("libpyclingo"):
        p["tech"] = TECHPY
        p["note"] = "Symbolic execution of the package's Python sources within the stated bounds; below the foreign function layer a stand-in for the C library is used."
NA = []
