// reads a program from stdin and prints the ground program (text or recorded rules)
#include "ground.hh"
#include <iostream>
#include <map>
#include <algorithm>
using namespace H;
// stable models of the recorded rules by brute force (up to 16 atoms)
static bool holds(std::pair<int, int> const &l, unsigned i) { unsigned a = l.first < 0 ? -l.first : l.first; bool v = i >> a & 1; return l.first < 0 ? !v : v; }
static void models(Recorded &rec) {
    unsigned n = 0;
    for (auto &r : rec.rules) { for (auto h : r.head) n = std::max(n, (unsigned)h); for (auto &l : r.body) n = std::max(n, (unsigned)std::abs(l.first)); }
    for (auto &m : rec.mins) for (auto &l : m.body) n = std::max(n, (unsigned)std::abs(l.first));
    for (auto &o : rec.outs) { n = std::max(n, (unsigned)o.atom); if (o.cond) for (auto l : o.body) n = std::max(n, (unsigned)std::abs(l)); }
    if (n > 16) { std::cout << "too many atoms\n"; return; }
    // j is a model of the reduct with respect to i
    auto model = [&](unsigned i, unsigned j) {
        for (auto &r : rec.rules) {
            int64_t s = 0, need = r.weighted ? r.bound : (int64_t)r.body.size();
            for (auto &l : r.body) if (holds(l, l.first < 0 ? i : j)) s += r.weighted ? l.second : 1;
            if (s < need) continue;
            bool sat = false;
            for (auto h : r.head) sat = sat || (j >> h & 1);
            if (r.choice) { for (auto h : r.head) if ((i >> h & 1) && !(j >> h & 1)) { return false; } sat = true; }
            if (!sat) return false;
        }
        return true;
    };
    std::vector<std::string> res;
    for (unsigned i = 0; i < (1u << (n + 1)); i += 2) {
        if (!model(i, i)) continue;
        bool min = true;
        for (unsigned j = (i - 1) & i; i && min; j = (j - 1) & i) { if (model(i, j)) min = false; if (!j) break; }
        if (!min) continue;
        std::vector<std::string> sh;
        for (auto &o : rec.outs) {
            bool h = true;
            if (o.cond) for (auto l : o.body) h = h && holds({l, 1}, i);
            else h = !o.atom || (i >> o.atom & 1);
            if (h) sh.push_back(str(o.sym));
        }
        std::sort(sh.begin(), sh.end());
        sh.erase(std::unique(sh.begin(), sh.end()), sh.end());
        std::string m = "{";
        for (auto &x : sh) m += " " + x;
        m += " }";
        std::map<int, int64_t> cost;
        for (auto &c : rec.mins) for (auto &l : c.body) cost[-c.prio] += holds(l, i) ? l.second : 0;
        for (auto &c : cost) m += " " + std::to_string(c.second) + "@" + std::to_string(-c.first);
        res.push_back(m);
    }
    std::sort(res.begin(), res.end());
    for (auto &m : res) std::cout << m << "\n";
}
int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "text", prg((std::istreambuf_iterator<char>(std::cin)), {});
    Session s(mode == "text");
    bool ok = false;
    try { ok = s.run(prg); } catch (std::exception const &e) { std::cout << "exception: " << e.what() << "\n"; }
    if (!ok) { std::cout << "error: " << s.msgs.last << "\n"; return 0; }
    if (mode == "text") { std::cout << s.text.str(); return 0; }
    if (mode == "models") { models(s.rec); return 0; }
    for (auto &r : s.rec.rules) {
        if (r.choice) std::cout << "choice ";
        for (auto h : r.head) std::cout << h << " ";
        std::cout << ":-";
        if (r.weighted) std::cout << " " << r.bound << " <=";
        for (auto &l : r.body) { std::cout << " " << l.first; if (r.weighted) std::cout << "=" << l.second; }
        std::cout << "\n";
    }
    for (auto &m : s.rec.mins) { std::cout << "minimize@" << m.prio; for (auto &l : m.body) std::cout << " " << l.first << "=" << l.second; std::cout << "\n"; }
    for (auto &o : s.rec.outs) { std::cout << "show " << str(o.sym) << " "; if (o.cond) { std::cout << "if"; for (auto l : o.body) std::cout << " " << l; } else std::cout << o.atom; std::cout << "\n"; }
    for (auto &e : s.rec.exts) std::cout << "external " << e.atom << " " << e.val << "\n";
    for (auto &h : s.rec.heus) { std::cout << "heuristic " << h.atom << " " << h.type << " " << h.bias << " " << h.prio; for (auto l : h.body) std::cout << " " << l; std::cout << "\n"; }
    for (auto &e : s.rec.edges) { std::cout << "edge " << e.u << " " << e.v; for (auto l : e.body) std::cout << " " << l; std::cout << "\n"; }
    if (s.rec.projected) { std::cout << "project"; for (auto a : s.rec.project) std::cout << " " << a; std::cout << "\n"; }
    for (int i = 0; i < 8; ++i) if (s.msgs.count[i]) std::cout << "messages " << i << ": " << s.msgs.count[i] << "\n";
    return 0;
}
