// a rule is rejected exactly if one of its variables is not bound
#include "asp.hh"
using namespace H;
typedef std::vector<int> I;
struct Ent { I dep, prov; };
// an element with its own scope: variables that do not occur outside are local
struct Scope { I vars; std::vector<Ent> ents; };
// (the literal in front of the condition of a conditional literal binds its own local variables)
struct Case { char const *text; I global; std::vector<Ent> ents; std::vector<Scope> scopes; I assign; }; // assign: aggregate k binds variable assign[k] (-1: none)
int main() {
    static const std::vector<Case> cases = {
        /* 0*/ {"h($0) :- p($1,$2+1), not q($3), $4 < $5.", {0, 1, 2, 3, 4, 5}, {{{}, {1, 2}}}, {}, {}},
        /* 1*/ {"h($0) :- $1 = 2*$2-1, p(f($3,-$4)).", {0, 1, 2, 3, 4}, {{{2}, {1}}, {{1}, {2}}, {{}, {3, 4}}}, {}, {}},
        /* 2*/ {"h($0) :- p($1+$2,$3), $4 = f($5,1).", {0, 1, 2, 3, 4, 5}, {{{}, {3}}, {{5}, {4}}, {{4}, {5}}}, {}, {}},
        /* 3*/ {"h($0) :- $1 = $2*$2, p($3), $4 = 1..$5.", {0, 1, 2, 3, 4, 5}, {{{2}, {1}}, {{}, {3}}, {{5}, {4}}}, {}, {}},
        /* 4*/ {"h($0) :- not $1 != $2, not not p($3), q($4).", {0, 1, 2, 3, 4}, {{{1}, {2}}, {{2}, {1}}, {{}, {4}}}, {}, {}},
        /* 5*/ {"h($0) :- $1 = $2 = $3+1, p($4,a,$4).", {0, 1, 2, 3, 4}, {{{1}, {2}}, {{2}, {1}}, {{2}, {3}}, {{3}, {2}}, {{}, {4}}}, {}, {}},
        /* 6*/ {"h($0) :- p($1), q($2) : r($3), not s($4).", {0, 1}, {{{}, {1}}}, {{{3, 4}, {{{}, {3}}}}}, {-1}},
        /* 7*/ {"h($0) :- $1 = #count { $2 : q($2,$3), $4 != 1 }.", {0, 1}, {}, {{{2, 3, 4}, {{{}, {2, 3}}}}}, {1}},
        /* 8*/ {"h($0) :- p($1), $2 < #sum { $3,$4 : q($5) }.", {0, 1, 2}, {{{}, {1}}}, {{{3, 4, 5}, {{{}, {5}}}}}, {-1}},
        /* 9*/ {"{ h($0) : p($1), $2 = $3+1 } :- q($4).", {4}, {{{}, {4}}}, {{{0, 1, 2, 3}, {{{}, {1}}, {{2}, {3}}, {{3}, {2}}}}}, {-1}},
        /*10*/ {"h($0) : p($1) | g($2) : not q($3), p($3) :- r($4).", {4}, {{{}, {4}}}, {{{0, 1}, {{{}, {1}}}}, {{2, 3}, {{{}, {3}}}}}, {-1, -1}},
        /*11*/ {":~ p($0), $1 = $2-$3. [$4@$5]", {0, 1, 2, 3, 4, 5}, {{{}, {0}}, {{2, 3}, {1}}}, {}, {}},
        /*12*/ {"#show f($0,$1) : p($2,(_,$3)), not q($3,_).", {0, 1, 2, 3}, {{{}, {2, 3}}}, {}, {}},
        /*13*/ {"#external h($0,$1) : p(|$2|,$3), q(4/$3).", {0, 1, 2, 3}, {{{}, {3}}}, {}, {}},
        /*14*/ {"#heuristic h($0) : p($1). [$2@$3,sign]", {0, 1, 2, 3}, {{{}, {0}}, {{}, {1}}}, {}, {}},
        /*15*/ {"#edge ($0,$1) : p($2), not q($3).", {0, 1, 2, 3}, {{{}, {2}}}, {}, {}},
        /*16*/ {"#minimize { $0@$1,$2 : p($3), $4 = (1,$0) }.", {0, 1, 2, 3, 4}, {{{}, {3}}, {{0}, {4}}, {{4}, {0}}}, {}, {}},
        /*17*/ {"&sum { $0 : p($1), not q($2) } <= $3 :- r($4).", {3, 4}, {{{}, {4}}}, {{{0, 1, 2}, {{{}, {1}}}}}, {-1}},
        /*18*/ {"h($0) :- $1 = #sum { 1 : q($2) }, $3 = #max { $1 : q($4) }, r($4).", {0, 1, 3, 4}, {{{}, {4}}}, {{{2}, {{{}, {2}}}}, {{1, 4}, {{{}, {4}}}}}, {1, 3}},
        /*19*/ {"h($0) :- p($1..$2), -q($3), $4 >= $5.", {0, 1, 2, 3, 4, 5}, {{{}, {3}}}, {}, {}},
        /*20*/ {"1 #count { $0 : h($1) : p($0) } $2 :- r($3).", {2, 3}, {{{}, {3}}}, {{{0, 1}, {{{}, {0}}}}}, {-1}},
        /*21*/ {"h($0) :- f($1,$2) = f($3,2), p(2*($4-1),\"$\").", {0, 1, 2, 3, 4}, {{{1, 2}, {3}}, {{3}, {1, 2}}, {{}, {4}}}, {}, {}},
        /*22*/ {"h($0) :- not $1 = #count { $2 : p($2) }, q($3), not r(_,$4).", {0, 1, 3, 4}, {{{}, {3}}}, {{{2}, {{{}, {2}}}}}, {-1}},
        /*23*/ {"h :- p($0) : q($1); $2 = $3*2+1; not r($3); $4 = #min { $0 : s($0) }.", {2, 3, 4}, {{{2}, {3}}, {{3}, {2}}}, {{{0, 1}, {{{}, {0, 1}}}}, {{0}, {{{}, {0}}}}}, {-1, 4}},
    };
    int c = parts("case", (int)cases.size()), L = (int)symx_param("letters", 3);
    auto &k = cases[c];
    int v[8];
    std::string txt, prg = "#theory t { term { + : 1, binary, left }; &sum/0 : term, {<=}, term, any }. ";
    for (int i = 0; i < 6; ++i) v[i] = symx_int(("v" + std::to_string(i)).c_str(), 0, L - 1);
    bool used[8] = {};
    for (char const *t = k.text; *t; ++t) {
        if (*t == '$' && t[1] >= '0' && t[1] <= '9') { int i = t[1] - '0'; used[i] = true; txt += (char)('A' + v[i]); ++t; }
        else txt += *t;
    }
    for (int i = 0; i < 6; ++i) if (!used[i]) symx_assume(v[i] == 0);
    // an equation over one and the same variable is simplified arithmetically
    auto differ = [&](int i, int j) { symx_assume(v[i] != v[j]); };
    if (c == 1) differ(1, 2);
    if (c == 5) { differ(1, 2); differ(2, 3); differ(1, 3); }
    if (c == 9 || c == 23) differ(2, 3);
    if (c == 11) { differ(1, 2); differ(1, 3); differ(2, 3); }
    symx_observe("rule", k.text);
    Session s;
    bool ok = s.parse(prg + txt);
    symx_assert(ok, "parsed");
    ok = s.prepare();
    // which variables are bound, as formulas over the choice of letters
    int global[4] = {}, safe = 1, bnd[4] = {};
    auto has = [&](I const &is, int l) { int r = 0; for (auto i : is) r |= v[i] == l; return r; };
    for (int l = 0; l < L; ++l) global[l] = has(k.global, l);
    auto closure = [&](int *b, std::vector<Ent> const &es, bool aggr) {
        for (int round = 0; round <= L; ++round) {
            for (auto &e : es) {
                int en = 1;
                for (int l = 0; l < L; ++l) en &= (1 - has(e.dep, l)) | b[l];
                for (int l = 0; l < L; ++l) b[l] |= en & has(e.prov, l);
            }
            if (aggr) for (size_t i = 0; i < k.scopes.size(); ++i) {
                if (k.assign[i] < 0) continue;
                int en = 1;
                for (int l = 0; l < L; ++l) en &= (1 - (global[l] & has(k.scopes[i].vars, l))) | b[l];
                for (int l = 0; l < L; ++l) b[l] |= en & (v[k.assign[i]] == l);
            }
        }
    };
    closure(bnd, k.ents, true);
    for (int l = 0; l < L; ++l) safe &= (1 - global[l]) | bnd[l];
    for (auto &sc : k.scopes) {
        int b[4];
        for (int l = 0; l < L; ++l) b[l] = global[l];
        closure(b, sc.ents, false);
        for (int l = 0; l < L; ++l) safe &= (1 - has(sc.vars, l)) | b[l];
    }
    if (ok) symx_assert(safe, "accepted-is-safe");
    else { symx_assert(1 - safe, "rejected-is-unsafe"); symx_assert(s.msgs.all.find("unsafe") != std::string::npos, "reported"); }
    if (!ok) {
        // a reported variable is unbound and every unbound global variable is reported
        int named = 1;
        for (int l = 0; l < L; ++l) if (s.msgs.all.find("'" + std::string(1, (char)('A' + l)) + "' is unsafe") != std::string::npos && k.scopes.empty()) named &= global[l] & (1 - bnd[l]);
            else if (k.scopes.empty()) named &= (1 - global[l]) | bnd[l];
        symx_assert(named, "reports-the-unbound-variables");
    }
    symx_reach("end");
}
