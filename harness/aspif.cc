// ground programs in aspif format are passed to the backend exactly, what is not in this format is rejected
#include "asp.hh"
#include <gringo/input/groundtermparser.hh>
using namespace H;
static const char *kinds[] = {"rule", "choice", "weight", "minimize", "project", "output", "external", "assume", "heuristic", "edge", "number", "string", "compound", "element", "atom", "guard", "comment"};
static const int K = sizeof(kinds) / sizeof(*kinds);
// {{{ writing statements with arbitrary numbers
static int fresh = 0;
static std::string nat(bool zero) {
    static int wide = (int)symx_param("digits", 2);
    std::string n = "n" + std::to_string(fresh++), s;
    for (int i = 0; i < wide; ++i) {
        auto d = symx_byte((n + "_" + std::to_string(i)).c_str());
        symx_assume((d >= (i || (wide == 1 && zero) ? '0' : '1')) & (d <= '9'));
        s += (char)d;
    }
    return s;
}
static std::string choice(const char *n, int k) { return std::to_string(symx_choose((n + std::to_string(fresh++)).c_str(), 0, k)); }
static std::string integer() { return (symx_choose(("sign" + std::to_string(fresh++)).c_str(), 0, 1) ? "-" : "") + nat(true); }
static int count() { return (int)symx_choose(("count" + std::to_string(fresh++)).c_str(), 0, (int)symx_param("len", 2)); }
static std::string lits() { int n = count(); std::string s = std::to_string(n); for (int i = 0; i < n; ++i) s += " " + (i ? nat(false) : integer()); return s; }
static std::string nats(bool zero) { int n = count(); std::string s = std::to_string(n); for (int i = 0; i < n; ++i) s += " " + nat(zero); return s; }
static std::string wlits() { int n = count(); std::string s = std::to_string(n); for (int i = 0; i < n; ++i) s += " " + (i ? "-" + nat(false) : nat(false)) + " " + (i ? nat(true) : integer()); return s; }
static std::string text() {
    static const char *ss[] = {"", "a", "f(1,-2)", "\"x y\\n\\\"\"", "-g((),#sup)", "<=", "a b"};
    std::string s = ss[symx_choose(("text" + std::to_string(fresh++)).c_str(), 0, 6)];
    return std::to_string(s.size()) + " " + s;
}
static std::string stm(int k) {
    std::string s;
    switch (k) {
        case 0: s = "1 0 " + nats(false) + " 0 " + lits(); break;
        case 1: s = "1 1 " + nats(false) + " 0 " + lits(); break;
        case 2: s = "1 " + choice("head", 1) + " " + nats(false) + " 1 " + integer() + " " + wlits(); break;
        case 3: s = "2 " + integer() + " " + wlits(); break;
        case 4: s = "3 " + nats(false); break;
        case 5: s = "4 " + text() + " " + lits(); break;
        case 6: s = "5 " + nat(false) + " " + choice("value", 4); break;
        case 7: s = "6 " + lits(); break;
        case 8: s = "7 " + choice("modifier", 6) + " " + nat(false) + " " + integer() + " " + nat(true) + " " + lits(); break;
        case 9: s = "8 " + integer() + " " + integer() + " " + lits(); break;
        case 10: s = "9 0 " + nat(true) + " " + integer(); break;
        case 11: s = "9 1 " + nat(true) + " " + text(); break;
        case 12: s = "9 2 " + nat(true) + " " + (symx_choose("function", 0, 1) ? nat(true) : "-" + choice("tuple", 4)) + " " + nats(true); break;
        case 13: s = "9 4 " + nat(true) + " " + nats(true) + " " + lits(); break;
        case 14: s = "9 5 " + nat(true) + " " + nat(true) + " " + nats(true); break;
        case 15: s = "9 6 " + nat(true) + " " + nat(true) + " " + nats(true) + " " + nat(true) + " " + nat(true); break;
        case 16: s = "10 " + std::string(symx_choose("comment", 0, 1) ? "any text 1 2 3" : ""); break;
    }
    return s + "\n";
}
// }}}
// {{{ reading, written from the description of the format
struct Reader {
    std::string const &t; Recorder out; size_t i = 0; Logger &log;
    Reader(std::string const &t, Recorded &r, Logger &log) : t(t), out(r), log(log) {}
    struct Bad { };
    char at() { return i < t.size() ? t[i] : '\n'; }
    void ch(char c) { if (i >= t.size()) throw Bad(); if (t[i] != c) throw Bad(); ++i; }
    void lit(char const *s) { for (; *s; ++s) ch(*s); }
    unsigned nat() {
        if (at() < '0' || at() > '9') throw Bad();
        if (at() == '0') { ++i; if (at() >= '0' && at() <= '9') throw Bad(); return 0; }
        unsigned r = 0;
        for (; at() >= '0' && at() <= '9'; ++i) r = r * 10 + (unsigned)(at() - '0');
        return r;
    }
    // a space and a number
    unsigned N() { ch(' '); return nat(); }
    int I() { ch(' '); bool neg = at() == '-'; if (neg) ++i; unsigned r = nat(); return (int)(neg ? 0 - r : r); }
    unsigned A() { auto a = N(); if (a == 0) throw Bad(); return a; }
    int L() { auto l = I(); if (l == 0) throw Bad(); return l; }
    size_t C() { return (size_t)symx_concrete(N()); }
    std::vector<Atom_t> atoms() { std::vector<Atom_t> r; for (size_t n = C(); n; --n) { r.push_back(A()); } return r; }
    std::vector<Id_t> ids() { std::vector<Id_t> r; for (size_t n = C(); n; --n) { r.push_back(N()); } return r; }
    Lits lits() { Lits r; for (size_t n = C(); n; --n) r.push_back(L()); return r; }
    std::vector<Potassco::WeightLit_t> wlits() { std::vector<Potassco::WeightLit_t> r; for (size_t n = C(); n; --n) { int l = L(); r.push_back({l, I()}); } return r; }
    std::string string() { size_t n = C(); ch(' '); std::string s; for (; n; --n) { if (i >= t.size() || t[i] == '\n') throw Bad(); s += t[i++]; } return s; }
    void stms() {
        using Potassco::toSpan;
        for (;;) {
            switch (symx_concrete(nat())) {
                case 0: ch('\n'); return;
                case 1: {
                    auto h = N(); if (h > 1) throw Bad();
                    auto ht = h == 1 ? Potassco::Head_t::Choice : Potassco::Head_t::Disjunctive;
                    auto hd = atoms();
                    auto b = N();
                    if (b == 0) { auto l = lits(); ch('\n'); out.rule(ht, toSpan(hd), toSpan(l)); }
                    else if (b == 1) { auto w = I(); auto l = wlits(); ch('\n'); out.rule(ht, toSpan(hd), w, toSpan(l)); }
                    else throw Bad();
                    break;
                }
                case 2: { auto p = I(); auto l = wlits(); ch('\n'); out.minimize(p, toSpan(l)); break; }
                case 3: { auto a = atoms(); ch('\n'); out.project(toSpan(a)); break; }
                case 4: {
                    ch(' '); --i; auto s = string();
                    Symbol y;
                    try { y = Input::GroundTermParser().parse(s, log); } catch (std::runtime_error const &) { throw Bad(); }
                    if (y.type() == SymbolType::Special) throw Bad();
                    auto l = lits(); ch('\n'); out.output(y, toSpan(l)); break;
                }
                case 5: { auto a = A(); auto v = N(); if (v > 3) throw Bad(); ch('\n'); out.external(a, static_cast<Potassco::Value_t>(v)); break; }
                case 6: { auto l = lits(); ch('\n'); out.assume(toSpan(l)); break; }
                case 7: { auto m = N(); if (m > 5) throw Bad(); auto a = A(); auto b = I(); auto p = N(); auto l = lits(); ch('\n'); out.heuristic(a, static_cast<Potassco::Heuristic_t>(m), b, p, toSpan(l)); break; }
                case 8: { auto u = I(); auto v = I(); auto l = lits(); ch('\n'); out.acycEdge(u, v, toSpan(l)); break; }
                case 9: {
                    auto k = symx_concrete(N());
                    auto a = N();
                    if (k == 0) { auto n = I(); ch('\n'); out.theoryTerm(a, n); }
                    else if (k == 1) { auto s = string(); ch('\n'); out.theoryTerm(a, toSpan(s)); }
                    else if (k == 2) { auto c = I(); if (c < -3) throw Bad(); auto x = ids(); ch('\n'); out.theoryTerm(a, c, toSpan(x)); }
                    else if (k == 4) { auto x = ids(); auto l = lits(); ch('\n'); out.theoryElement(a, toSpan(x), toSpan(l)); }
                    else if (k == 5) { auto n = N(); auto x = ids(); ch('\n'); out.theoryAtom(a, n, toSpan(x)); }
                    else if (k == 6) { auto n = N(); auto x = ids(); auto o = N(); auto r = N(); ch('\n'); out.theoryAtom(a, n, toSpan(x), o, r); }
                    else throw Bad();
                    break;
                }
                case 10: ch(' '); while (i < t.size() && t[i] != '\n') ++i; ch('\n'); break;
                default: throw Bad();
            }
        }
    }
    bool read() {
        try {
            lit("asp"); N(); N(); N();
            if (t.compare(i, 12, " incremental") == 0 && (t[i + 12] == ' ' || t[i + 12] == '\n')) i += 12;
            ch('\n'); out.beginStep(); stms(); out.endStep();
        } catch (Bad const &) { return false; }
        return true;
    }
};
// }}}
template <class T> static int sameSeq(T const &a, T const &b) { int r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) r &= ((int)a[i] ^ (int)b[i]) == 0; return r; }
static int sameW(WLits const &a, WLits const &b) { int r = a.size() == b.size(); for (size_t i = 0; i < a.size() && i < b.size(); ++i) r &= ((a[i].first ^ b[i].first) == 0) & ((a[i].second ^ b[i].second) == 0); return r; }
#define SIZES(f) if (a.f.size() != b.f.size()) { symx_observe("differ", #f); return 0; }
static int same(Recorded const &a, Recorded const &b) {
    int r = (a.begin == b.begin) & (a.end == b.end) & (a.projected == b.projected) & sameSeq(a.project, b.project) & sameSeq(a.assume, b.assume);
    SIZES(rules) SIZES(mins) SIZES(outs) SIZES(exts) SIZES(edges) SIZES(heus) SIZES(tterms) SIZES(telems) SIZES(tatoms)
    for (size_t i = 0; i < a.rules.size(); ++i) { auto &x = a.rules[i], &y = b.rules[i]; r &= (x.choice == y.choice) & (x.weighted == y.weighted) & ((x.bound ^ y.bound) == 0) & sameSeq(x.head, y.head) & sameW(x.body, y.body); }
    for (size_t i = 0; i < a.mins.size(); ++i) r &= ((a.mins[i].prio ^ b.mins[i].prio) == 0) & sameW(a.mins[i].body, b.mins[i].body);
    for (size_t i = 0; i < a.outs.size(); ++i) r &= (a.outs[i].sym == b.outs[i].sym) & (a.outs[i].cond == b.outs[i].cond) & sameSeq(a.outs[i].body, b.outs[i].body) & (a.outs[i].atom == b.outs[i].atom);
    for (size_t i = 0; i < a.exts.size(); ++i) r &= ((a.exts[i].atom ^ b.exts[i].atom) == 0) & (a.exts[i].val == b.exts[i].val);
    for (size_t i = 0; i < a.edges.size(); ++i) r &= ((a.edges[i].u ^ b.edges[i].u) == 0) & ((a.edges[i].v ^ b.edges[i].v) == 0) & sameSeq(a.edges[i].body, b.edges[i].body);
    for (size_t i = 0; i < a.heus.size(); ++i) { auto &x = a.heus[i], &y = b.heus[i]; r &= ((x.atom ^ y.atom) == 0) & (x.type == y.type) & ((x.bias ^ y.bias) == 0) & ((x.prio ^ y.prio) == 0) & sameSeq(x.body, y.body); }
    for (auto i = a.tterms.begin(), j = b.tterms.begin(); i != a.tterms.end(); ++i, ++j) { auto &x = i->second, &y = j->second; r &= ((i->first ^ j->first) == 0) & (x.kind == y.kind) & ((x.num ^ y.num) == 0) & (x.name == y.name) & ((x.cid ^ y.cid) == 0) & sameSeq(x.args, y.args); }
    for (auto i = a.telems.begin(), j = b.telems.begin(); i != a.telems.end(); ++i, ++j) r &= ((i->first ^ j->first) == 0) & sameSeq(i->second.terms, j->second.terms) & sameSeq(i->second.cond, j->second.cond);
    for (size_t i = 0; i < a.tatoms.size(); ++i) { auto &x = a.tatoms[i], &y = b.tatoms[i]; r &= ((x.atom ^ y.atom) == 0) & ((x.term ^ y.term) == 0) & sameSeq(x.elems, y.elems) & (x.guard == y.guard) & ((x.op ^ y.op) == 0) & ((x.rhs ^ y.rhs) == 0); }
    return r;
}
static bool read(Session &x, Recorded &r, std::string const &t, int how, std::string const &more = "") {
    Recorder b(r);
    x.parser.reset(new Input::NonGroundParser(*x.pb, b, x.incmode));
    if (!more.empty()) x.parser->pushStream("<more>", gringo_make_unique<std::stringstream>(more), x.log);
    x.parser->pushStream("<string>", gringo_make_unique<std::stringstream>(t), x.log);
    try { if (how) x.parser->parse(x.log); else x.parser->parse_aspif(x.log); }
    catch (std::runtime_error const &e) { symx_observe("message", e.what()); return false; }
    return !x.log.hasError();
}
static void compare(std::string const &t, int how, char const *label, std::string const &more = "", std::string const &all = "") {
    Session x, y;
    Recorded exp, got;
    std::string const &whole = all.empty() ? t : all;
    bool e = Reader(whole, exp, y.log).read(), g = read(x, got, t, how, more);
    symx_observe("text", t);
    symx_assert(e == g, e ? "accepted" : "rejected");
    if (e && g) { symx_reach("accepted"); symx_assert(same(exp, got), label); }
    else symx_reach("rejected");
}
static const char *pre = "asp 1 0 0\n";
static const char *sample[] = {"1 0 2 1 12 0 1 -3\n", "1 1 1 3 1 -2 2 1 4 -2 1\n2 7 1 -1 5\n", "3 2 1 2\n6 1 -2\n5 3 2\n", "4 4 f(1) 2 1 -2\n7 5 3 -1 2 1 4\n8 -1 10 0\n", "9 0 1 -12\n9 1 2 3 <=+\n9 2 3 -1 2 1 2\n", "9 4 0 1 3 1 -2\n9 5 7 1 1 0\n9 6 0 1 0 2 3\n10 x\n"};
int main() {
    int mode = (int)symx_param("mode", 0), how = (int)symx_choose("how", 0, 1);
    if (mode == 0) {
        // one statement of any kind
        int k = parts("kind", K);
        std::string t = pre + stm(k);
        if (symx_param("two", 0)) t += stm((int)symx_choose("second", 0, K - 1));
        compare(t + "0\n", how, "statement");
    }
    else if (mode == 1) {
        // one byte replaced, inserted or missing
        int c = parts("case", 7);
        std::string t = c < 6 ? std::string(pre) + sample[c] + "0\n" : "asp 1 0 0 incremental\n5 1 0\n0\n";
        // other texts are read as logic programs
        int at = (int)symx_choose("position", how ? 4 : 0, (int)t.size() - 1), op = (int)symx_choose("operation", 0, 2);
        if (op < 2) {
            char b = (char)symx_byte("byte");
            // numbers of elements that no text can have
            symx_assume((b < '1') | (b > '9') | (b <= '3'));
            if (op) t.insert(t.begin() + at, b); else t[(size_t)at] = b;
        }
        else t.erase((size_t)at, 1);
        // text after the last statement is ignored or read as a logic program
        if (at + 3 >= (int)t.size() || (c == 6 && at < 23)) symx_end();
        compare(t, how, "changed");
    }
    else if (mode == 2) {
        // the text ends anywhere
        int c = parts("case", 7);
        std::string t = c < 6 ? std::string(pre) + sample[c] + "0\n" : "asp 1 0 0 incremental\n5 1 0\n0\n";
        t.resize((size_t)symx_choose("length", how ? 4 : 0, (int)t.size() - 2));
        Session x;
        Recorded got;
        bool g = read(x, got, t, how);
        symx_assert(!g || t.empty(), "incomplete");
    }
    else if (mode == 3) {
        // the buffer of the lexer ends anywhere
        int c = parts("case", 6);
        std::string s = sample[c];
        size_t off = (size_t)symx_choose("boundary", 0, (int)s.size()), size = 4096;
        std::string t = pre + std::string("10 ") + std::string(size - 14 - off, 'x') + "\n" + s;
        if (symx_choose("kind", 0, 1)) t += "10 " + std::string(9000, 'y') + "\n";
        compare(t + "0\n", how, "boundary");
    }
    else if (mode == 5) {
        // extreme numbers
        static const char *t[] = {"9 0 1 -2147483648\n", "9 0 4294967295 2147483647\n", "2 -2147483648 1 -2147483647 2147483647\n", "2 2147483647 1 2147483647 -2147483648\n", "1 1 1 2147483647 1 -2147483648 1 -2147483647 -2147483648\n", "7 0 2147483647 -2147483648 4294967295 0\n", "8 -2147483648 2147483647 1 1\n", "9 1 4294967295 4294967295 x\n", "9 5 0 4294967295 1 4294967295\n", "1 0 1 01 0 0\n", "1 0 1 -1 0 0\n", "2 -0 0\n", "1 0 1 0 0 0\n", "1 0 0 0 1 0\n", "5 0 0\n", "9 2 1 -4 0\n", "9 3 1 1\n", "11\n", "1 2 0 0 0\n", "1 0 0 2 0\n", "4 1 X 0\n", "4 1 1 1 1\n", "4 0  0\n", "10\n", "9 6 0 1 0 2\n"};
        std::string s = t[symx_choose("number", 0, (int)(sizeof(t) / sizeof(*t)) - 1)];
        compare(pre + s + "0\n", how, "numbers");
    }
    else {
        // several files
        std::string a = stm(0), b = stm(9);
        compare(pre + a + "0\n", 0, "files", b + "0\n", pre + a + b + "0\n");
    }
    symx_reach("end");
}
