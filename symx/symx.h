// Harness interface: symbolic under symx, concrete under native replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
#include <string>
extern "C" {
#endif
uint64_t symx_var(const char *name, unsigned bits, int64_t lo, int64_t hi, int isSigned);
void symx_assume_(uint64_t c);
void symx_assert_(uint64_t c, const char *label);
void symx_reach(const char *label);
int64_t symx_param(const char *name, int64_t def);
void symx_observe_(const char *name, int64_t v);
void symx_observe_str(const char *name, const char *s, size_t n);
int symx_native(void);
uint64_t symx_concrete_(uint64_t v);
int symx_is_symbolic_(uint64_t v);
uint64_t symx_ite_(uint64_t c, uint64_t a, uint64_t b);
void symx_end(void) __attribute__((noreturn));
void symx_print(const char *s, size_t n);
#ifdef __cplusplus
}
inline int symx_int(const char *n, int64_t lo = INT32_MIN, int64_t hi = INT32_MAX) { return (int)symx_var(n, 32, lo, hi, 1); }
inline unsigned symx_uint(const char *n, int64_t lo = 0, int64_t hi = UINT32_MAX) { return (unsigned)symx_var(n, 32, lo, hi, 0); }
inline int64_t symx_i64(const char *n, int64_t lo = INT64_MIN, int64_t hi = INT64_MAX) { return (int64_t)symx_var(n, 64, lo, hi, 1); }
inline unsigned char symx_byte(const char *n, int64_t lo = 0, int64_t hi = 255) { return (unsigned char)symx_var(n, 8, lo, hi, 0); }
inline bool symx_bool(const char *n) { return (symx_var(n, 8, 0, 1, 0) & 1) != 0; }
inline void symx_assume(bool c) { symx_assume_(c ? 1 : 0); }
inline void symx_assert(bool c, const char *l) { symx_assert_(c ? 1 : 0, l); }
inline int64_t symx_concrete(int64_t v) { return (int64_t)symx_concrete_((uint64_t)v); }
// picks a concrete value from [lo,hi]: one path per value
inline int symx_choose(const char *n, int lo, int hi) { return (int)symx_concrete(symx_int(n, lo, hi)); }
inline void symx_observe(const char *n, int64_t v) { symx_observe_(n, v); }
inline void symx_observe(const char *n, std::string const &s) { symx_observe_str(n, s.data(), s.size()); }
#endif
#ifdef __cplusplus
// a parameter fixed by the run, or one path per value in [0,n)
// like pick, but a run may be limited to the choices part, part+parts, part+2*parts, ...
inline int parts(const char *name, int n) {
    int ps = (int)symx_param("parts", 1), p = (int)symx_param("part", 0), f = (int)symx_param(name, -1);
    return f >= 0 ? f : p + ps * symx_choose(name, 0, (n - p - 1) / ps);
}
inline int pick(const char *name, int n) { int p = (int)symx_param(name, -1); return p >= 0 ? p : symx_choose(name, 0, n - 1); }
#endif
