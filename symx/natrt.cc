// Native replay of a harness: reads the values of the symbolic variables from the file named in SYMX_INPUT.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
static std::map<std::string, long long> g_vals;
static std::map<std::string, long long> g_params;
static std::map<std::string, int> g_seen;
static bool g_loaded = false;
static void load() {
    if (g_loaded) return;
    g_loaded = true;
    const char *f = getenv("SYMX_INPUT");
    if (!f) return;
    FILE *h = fopen(f, "r");
    if (!h) { fprintf(stderr, "symx: cannot read %s\n", f); _exit(97); }
    char line[4096];
    while (fgets(line, sizeof line, h)) {
        std::string s(line);
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
        auto p = s.rfind(' ');
        if (p == std::string::npos || p < 2) continue;
        std::string name = s.substr(2, p - 2);
        long long v = (long long)(s[p + 1] == '-' ? (unsigned long long)strtoll(s.c_str() + p + 1, nullptr, 10) : strtoull(s.c_str() + p + 1, nullptr, 10));
        (s[0] == 'P' ? g_params : g_vals)[name] = v;
    }
    fclose(h);
}
extern "C" {
uint64_t symx_var(const char *name, unsigned bits, int64_t lo, int64_t hi, int sg) {
    load();
    std::string n(name);
    int k = g_seen[n]++;
    if (k) n += "#" + std::to_string(k);
    auto it = g_vals.find(n);
    int64_t v = it == g_vals.end() ? lo : it->second;
    uint64_t u = (uint64_t)v;
    if (bits < 64) { u &= (1ULL << bits) - 1; if (sg) u = (uint64_t)((int64_t)(u << (64 - bits)) >> (64 - bits)); }
    (void)hi;
    return u;
}
void symx_assume_(uint64_t c) { if (!c) { printf("SYMX assume-failed\n"); fflush(stdout); _exit(96); } }
void symx_assert_(uint64_t c, const char *label) { if (!c) { printf("SYMX assert %s\n", label); fflush(stdout); } }
void symx_reach(const char *l) { printf("SYMX reach %s\n", l); }
int64_t symx_param(const char *name, int64_t def) { load(); auto it = g_params.find(name); return it == g_params.end() ? def : it->second; }
void symx_observe_(const char *name, int64_t v) { printf("SYMX obs %s %lld\n", name, (long long)v); }
void symx_observe_str(const char *name, const char *s, size_t n) {
    printf("SYMX obs %s ", name);
    for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127 && c != '\\') putchar(c); else printf("\\x%02x", c); }
    putchar('\n');
}
int symx_native(void) { return 1; }
uint64_t symx_concrete_(uint64_t v) { return v; }
int symx_is_symbolic_(uint64_t) { return 0; }
uint64_t symx_ite_(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
void symx_end(void) { printf("SYMX end\n"); fflush(stdout); _exit(0); }
void symx_print(const char *s, size_t n) { fprintf(stderr, "%.*s\n", (int)n, s); }
}
