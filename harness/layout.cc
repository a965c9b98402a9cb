// reading programs does not depend on layout or on where the buffer of the lexer ends; positions are exact; what is not a program is reported
#include "asp.hh"
using namespace H;
// programs as tokens separated by single spaces; "_" in strings stands for a space
static const char *prgs[] = {
    /* 0*/ "p ( X , 1 .. 2 ) :- q ( X ) , not r ( X ; X + 1 ) , X < = 3 .",
    /* 1*/ "{ a ; b : c } = 1 . s :- 2 { a ; b ( 0x1F , 0b101 , 0o107 ) } .",
    /* 2*/ ":~ a ( X ) . [ X @ 2 , y ] #minimize { X @ 1 , y : b ( X ) ; 3 } . #maximise { 1 } .",
    /* 3*/ "#const n = 3 . [override] #const m = n ** 2 . [default] p ( n , m , - _x' , \"a\\n\\\\\\\"%*b\" ) .",
    /* 4*/ "#show . #show a / 1 . #show -b / 0 . #show ( X , - 1 ) : a ( X ) . #project a / 2 . #project a : b . #defined -c / 3 .",
    /* 5*/ "#theory t { e { + : 1 , binary , left ; - : 2 , unary ; <? : 3 , binary , right } ; & a / 1 : e , { <= , = } , e , any ; & d / 0 : e , directive } . & d { } . & a ( 2 ) { x + - y <? 3 , [ z ] : b ; y } <= 4 :- c .",
    /* 6*/ "#heuristic a ( X ) : b ( X ) . [ 1 @ 2 , sign ] #edge ( 1 , X ; 2 , Y ) : e ( X , Y ) . #external a : b . [ true ] #program s ( t ) . p ( t ) .",
    /* 7*/ "p ( #inf , #supremum , | X - 1 | , ~ 2 ^ 3 ? 4 & 5 , ( ) , ( 1 , ) , @ f ( X ) , _ ) :- q ( X ) , #true , 1 != X , X \\ 2 = 0 .",
    /* 8*/ "#sum+ { X : p ( X ) : q ( X ) } >= 1 :- #count { X , Y : t ( X , Y ) } <> 3 , #max { 1 : not not u } , v : w ; x . a | b , c : d :- .",
    /* 9*/ "not a :- b ; c : d , e . f : g ; h . #false :- #false . -p :- -q , not -r .",
};
static const int P = sizeof(prgs) / sizeof(*prgs);
static std::vector<std::string> tokens(std::string const &s) {
    std::vector<std::string> r(1);
    for (auto c : s) if (c == ' ') r.emplace_back(); else r.back() += c;
    // "< =" denotes one token written with a blank above, [override] is one token sequence
    std::vector<std::string> t;
    for (size_t i = 0; i < r.size(); ++i) {
        if (r[i] == "<" && i + 1 < r.size() && r[i + 1] == "=") { t.push_back("<="); ++i; }
        else if (r[i].size() > 3 && r[i][0] == '[' && r[i].back() == ']') { t.push_back("["); t.push_back(r[i].substr(1, r[i].size() - 2)); t.push_back("]"); }
        else t.push_back(r[i]);
    }
    return t;
}
static bool word(char c) { return c == '_' || c == '\'' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool op(char c) { return std::string("/!<=>+-*\\?&@|:;~^.").find(c) != std::string::npos; }
static const char *layouts[] = {" ", "\n", "\t\r\n ", "% x *% %* p.\n", "%* a. %* b *% \n c *%", "#! #end. \" \r\n", "", "%*% *% \"\n*%\t", "%**%%\n\n"};
struct Read { bool ok; std::string prg, msgs; };
static std::string print(Input::Program const &p) { std::ostringstream o; p.print(o); return o.str(); }
static Read read(std::string const &s) {
    Session x;
    Read r;
    r.ok = x.parse(s);
    r.prg = print(x.prg);
    r.msgs = x.msgs.all;
    for (auto &d : x.defs.defs()) { std::ostringstream o; o << d.first << "=" << *std::get<2>(d.second) << "," << std::get<0>(d.second) << "\n"; r.prg += o.str(); }
    return r;
}
// position after a text starting at line 1, column 1
static std::string pos(std::string const &s, size_t n, size_t len) {
    int l = 1, c = 1;
    for (size_t i = 0; i < n; ++i) if (s[i] == '\n') { ++l; c = 1; } else ++c;
    return ":" + std::to_string(l) + ":" + std::to_string(c) + (len ? "-" + std::to_string(c + len) : "");
}
static std::string plain(std::vector<std::string> const &t) {
    std::string s;
    for (auto &x : t) s += x + " ";
    return s;
}
static void layout() {
    int c = parts("case", P), gaps = (int)symx_param("gaps", 1);
    auto t = tokens(prgs[c]);
    std::map<int, int> lay;
    for (int g = 0; g < gaps; ++g) {
        int i = (int)symx_choose(("gap" + std::to_string(g)).c_str(), g ? 0 : -1, (int)t.size() - 1), k = (int)symx_choose(("layout" + std::to_string(g)).c_str(), 0, 8);
        if (lay.count(i)) return;
        lay[i] = k;
    }
    std::string s;
    if (lay.count(-1)) s += layouts[lay[-1]];
    for (size_t i = 0; i < t.size(); ++i) {
        s += t[i];
        if (!lay.count((int)i)) { s += " "; continue; }
        std::string l = layouts[lay[(int)i]];
        // without layout the tokens must not run together
        if (l.empty() && i + 1 < t.size()) {
            char a = t[i].back(), b = t[i + 1][0];
            if ((word(a) && word(b)) || (op(a) && op(b)) || (a == '#' || b == '#') || (t[i][0] == '#' && (word(b) || b == '+'))) l = " ";
            // the end of a block comment and show statements with signatures
            if (a == '*' || a == '%') l = " ";
        }
        s += l;
    }
    auto a = read(plain(t)), b = read(s);
    symx_observe("program", s);
    symx_assert(a.ok, "program is read");
    // comments within "#show a / 1 ." and "#show -b / 0 ."
    bool sig = false;
    for (auto &l : lay) sig = sig || (c == 4 && ((l.first >= 2 && l.first <= 5) || (l.first >= 7 && l.first <= 10)) && std::string("\x03\x04\x05\x07\x08").find((char)l.second) != std::string::npos);
    if (sig) { symx_assert(b.ok && a.prg == b.prg, "comment within signature of show statement"); return; }
    symx_assert(b.ok, "program with layout is read");
    symx_assert(a.prg == b.prg, "same program");
    // the position of an atom after the program
    Session x;
    std::string u = "p :- " + std::string("zz ( 1 )") + " .";
    // programs may fail to ground for other reasons, so a comment with the same layout is read instead
    std::string pre = lay.count(-1) ? layouts[lay[-1]] : "";
    for (auto &l : lay) pre += std::string(layouts[l.second]) + " ";
    std::string v = pre + u;
    bool ok = x.run(v);
    symx_assert(ok, "position program");
    symx_observe("messages", x.msgs.all);
    auto at = v.find("zz");
    symx_assert(x.msgs.all.find("<string>" + pos(v, at, 8) + ": info: atom does not occur in any rule head:\n  zz(1)\n") == 0, "position");
}
// the buffer is filled in the middle of the text or ends there
static void boundary() {
    int c = parts("case", P + 3);
    std::string s;
    if (c < P) s = plain(tokens(prgs[c]));
    else if (c == P) s = "a.\n%* one\n %* two *% three\n*% b. % four\nc(\"five\\n\").\n#! six\nd.";
    else if (c == P + 1) s = "#script (lua)\n function f(x) \n return x -- \"%*\n end \t\n#end.\na(@f(1)).\n";
    else s = "a. #show a/0.  #show  - \n b / 0 . b :- not\tcc. #show a / 1";
    size_t len = s.size(), off = (size_t)symx_choose("boundary", 0, (int)len), size = 4096, kind = (size_t)symx_choose("kind", 0, 2);
    // kind 0: much text follows, kind 1: the text ends there, kind 2: a bit of text follows
    std::string pad = "%" + std::string(size - 2 - off, 'x') + "\n", tail;
    if (kind == 1) { pad = off < 3 ? "%" + std::string(size - len - 2 - off, 'x') + "\n" : ""; if (off >= 3) return; }
    else tail = kind ? "\nz. " : "\nz. %" + std::string(9000, 'y') + "\n";
    if (c == P + 2) tail = kind == 1 ? "" : ".";
    auto a = read(s + (kind == 1 ? "" : c == P + 2 ? "." : "\nz. ")), b = read(pad + s + tail);
    symx_observe("text", s);
    symx_observe("messages", b.msgs);
    symx_assert(a.ok == b.ok, "read alike");
    symx_assert(a.prg == b.prg, "same program");
    if (c == P + 2) symx_assert(a.ok == (kind != 1), "incomplete statements are reported");
}
// arbitrary bytes in various places: reported or read, without exceptions
static void bytes() {
    static const char *ctx[][2] = {
        {"", ""}, {"a", "."}, {"a(", ")."}, {"a(1,\"", "\")."}, {"#", " a."}, {"%*", "*% a."}, {"a:-b", "."}, {"0", "."}, {"#show ", "."}, {"&a{ x", "}."},
        {"#theory t{x{", ":1,unary}}."}, {"#script (lua) ", "#end."}, {"asp", " 1 0 0\n0\n"}, {"a[", "]."}, {"a(", ""}, {"\"", ""}, {"%", ""}, {"#const a=", "."}, {"a :- X", "Y."}, {"#program ", "."},
    };
    constexpr int N = sizeof(ctx) / sizeof(*ctx);
    int c = parts("case", N), n = (int)symx_param("bytes", 2);
    std::string s = ctx[c][0];
    for (int i = 0; i < n; ++i) s += (char)symx_byte(("byte" + std::to_string(i)).c_str());
    s += ctx[c][1];
    Session x;
    bool ok = false, thrown = false;
    try { ok = x.parse(s); }
    catch (std::runtime_error const &) { thrown = true; }
    bool aspif = c == 12;
    symx_assert(!thrown || aspif || c == 0, "no exception");
    if (thrown) { symx_reach("exception"); return; }
    bool err = x.msgs.all.find("error:") != std::string::npos;
    symx_assert(ok == !err, "errors are reported");
    if (ok && !aspif) {
        symx_reach("accepted");
        symx_observe("printed", print(x.prg));
    }
    else symx_reach("rejected");
}
int main() {
    switch (symx_param("mode", 0)) {
        case 0: layout(); break;
        case 1: boundary(); break;
        case 2: bytes(); break;
    }
    symx_reach("end");
}
