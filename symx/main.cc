// Command line: symx [options] file.bc...   Result as JSON on --out.
#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <pthread.h>
#include <sys/resource.h>
#include <llvm/Demangle/Demangle.h>
using namespace symx;
static std::string q(std::string const &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
template <class M> static std::string mapJ(M const &m) {
    std::string s = "{"; bool f = true;
    for (auto &p : m) { if (!f) s += ","; f = false; s += q(p.first) + ":" + std::to_string(p.second); }
    return s + "}";
}
static std::string inputsJ(std::vector<InputVal> const &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        long long x = v[i].isSigned ? (long long)sext64(v[i].val, v[i].w) : (long long)v[i].val;
        s += (i ? "," : "") + std::string("[") + q(v[i].name) + "," + (v[i].isSigned ? std::to_string(x) : std::to_string((unsigned long long)x)) + "]";
    }
    return s + "]";
}
static int argc_; static char **argv_; static int rc_ = 2;
static void *mainThread(void *) {
    LoadOptions lo; Config cfg; Result res; Program prog;
    std::string out; bool forks = false;
    for (int i = 1; i < argc_; ++i) {
        std::string a = argv_[i];
        auto nx = [&]() -> std::string { if (i + 1 >= argc_) { fprintf(stderr, "missing argument for %s\n", a.c_str()); exit(2); } return argv_[++i]; };
        if (a == "--out") out = nx();
        else if (a == "--zero") lo.zeroFuncs.push_back(nx());
        else if (a == "--repo") lo.repoDir = nx();
        else if (a == "--time") cfg.maxTime = atof(nx().c_str());
        else if (a == "--insts") cfg.maxInsts = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--path-insts") cfg.maxPathInsts = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--mem") cfg.maxMem = strtoull(nx().c_str(), nullptr, 10) << 20;
        else if (a == "--samples") cfg.samples = (unsigned)atoi(nx().c_str());
        else if (a == "--trace") cfg.trace = true;
        else if (a == "--forks") forks = true;
        else if (a == "--z1") g_timeoutMs1 = (unsigned)atoi(nx().c_str());
        else if (a == "--z2") g_timeoutMs2 = (unsigned)atoi(nx().c_str());
        else if (a == "--param") { std::string p = nx(); auto e = p.find('='); cfg.params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
        else lo.files.push_back(a);
    }
    std::string err;
    if (!loadProgram(lo, prog, err)) { fprintf(stderr, "symx: %s\n", err.c_str()); return nullptr; }
    execute(prog, cfg, res);
    std::string s = "{";
    s += "\"paths\":" + std::to_string(res.pathsDone) + ",\"paths_assume\":" + std::to_string(res.pathsAssume) + ",\"paths_error\":" + std::to_string(res.pathsError);
    s += ",\"paths_exit\":" + std::to_string(res.pathsExit) + ",\"forks\":" + std::to_string(res.forks) + ",\"insts\":" + std::to_string(res.insts);
    char b[400];
    snprintf(b, sizeof b, ",\"wall\":%.3f,\"exprs\":%u,\"max_constraints\":%llu,\"solver\":{\"queries\":%llu,\"z3\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"time\":%.3f,\"max_time\":%.3f}",
        res.wall, numExprs(), (unsigned long long)res.maxDepthPC, (unsigned long long)g_stats.queries, (unsigned long long)g_stats.z3, (unsigned long long)g_stats.cacheHits,
        (unsigned long long)g_stats.sat, (unsigned long long)g_stats.unsat, (unsigned long long)g_stats.unknown, g_stats.time, g_stats.maxTime);
    s += b;
    s += ",\"reach\":" + mapJ(res.reach) + ",\"asserts\":" + mapJ(res.asserts) + ",\"assert_queries\":" + mapJ(res.assertQueries) + ",\"assert_proved\":" + mapJ(res.assertProved);
    s += ",\"incomplete\":" + mapJ(res.incomplete);
    s += ",\"violations\":[";
    for (size_t i = 0; i < res.violations.size(); ++i) {
        auto &v = res.violations[i];
        s += (i ? "," : "") + std::string("{\"kind\":") + q(v.kind) + ",\"label\":" + q(v.label) + ",\"where\":" + q(v.where) + ",\"inputs\":" + inputsJ(v.inputs) + ",\"stack\":[";
        for (size_t k = 0; k < v.stack.size(); ++k) s += (k ? "," : "") + q(v.stack[k]);
        s += "]}";
    }
    s += "],\"samples\":[";
    for (size_t i = 0; i < res.samples.size(); ++i) {
        auto &v = res.samples[i];
        s += (i ? "," : "") + std::string("{\"inputs\":") + inputsJ(v.inputs) + ",\"end\":" + q(v.end) + ",\"observed\":[";
        for (size_t k = 0; k < v.observed.size(); ++k) s += (k ? "," : "") + std::string("[") + q(v.observed[k].first) + "," + q(v.observed[k].second) + "]";
        s += "]}";
    }
    s += "],\"functions\":{";
    bool first = true;
    for (auto *f : prog.funcs) if (f->calls && f->repo && !f->decl) { s += (first ? "" : ",") + q(f->ret0 ? "[stub] " + llvm::demangle(f->name) : llvm::demangle(f->name)) + ":" + std::to_string(f->calls); first = false; }
    s += "}";
    if (forks) {
        std::vector<std::pair<u64, std::string>> v;
        for (auto &p : res.branchForks) v.push_back({p.second, p.first});
        std::sort(v.rbegin(), v.rend());
        for (size_t i = 0; i < v.size() && i < 25; ++i) fprintf(stderr, "%8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
    }
    s += "}\n";
    if (out.empty()) fputs(s.c_str(), stdout);
    else { FILE *f = fopen(out.c_str(), "w"); if (!f) return nullptr; fputs(s.c_str(), f); fclose(f); }
    rc_ = !res.violations.empty() ? 1 : !res.incomplete.empty() ? 2 : 0;
    return nullptr;
}
int main(int argc, char **argv) {
    argc_ = argc; argv_ = argv;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2ULL << 30);
    pthread_t t;
    if (pthread_create(&t, &at, mainThread, nullptr)) { fprintf(stderr, "symx: no thread\n"); return 2; }
    pthread_join(t, nullptr);
    fflush(stdout);
    _exit(rc_);
}
