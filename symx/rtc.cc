// Bitcode run-time library for symx: C functions (no headers included: glibc's inline versions would clash).
typedef unsigned long size_t;
extern "C" { void *malloc(size_t); void *memcpy(void *, const void *, size_t); int *__errno_location(); }
#define errno (*__errno_location())
#define ERANGE 34
#define LONG_MIN (-0x7fffffffffffffffL - 1)
#define LONG_MAX 0x7fffffffffffffffL
#define ULONG_MAX (~0UL)
extern "C" {
void *__dso_handle = nullptr;
char __libc_single_threaded = 1;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
    for (;; ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; --n, ++a, ++b) { unsigned char x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strpbrk(const char *s, const char *a) { for (; *s; ++s) for (const char *p = a; *p; ++p) if (*p == *s) return (char *)s; return nullptr; }
char *strstr(const char *h, const char *n) {
    for (;; ++h) { const char *a = h, *b = n; while (*b && *a == *b) { ++a; ++b; } if (!*b) return (char *)h; if (!*h) return nullptr; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (; n; --n, ++p) if (*p == (unsigned char)c) return (void *)p; return nullptr; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
double pow(double x, double y) { // only integral exponents
    if (y < 0) return 1.0 / pow(x, -y);
    double r = 1; for (double i = 0; i < y; i += 1) r *= x; return r;
}
static unsigned long long parseU(const char *s, char **e, int base, bool &neg, bool &ovf) {
    const char *p = s;
    while (isspace((unsigned char)*p)) ++p;
    neg = false; ovf = false;
    if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long r = 0;
    bool any = false;
    for (;; ++p) {
        int d;
        if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break;
        if (d >= base) break;
        any = true;
        unsigned long long t;
        if (__builtin_mul_overflow(r, (unsigned long long)base, &t) || __builtin_add_overflow(t, (unsigned long long)d, &t)) ovf = true; else r = t;
    }
    if (e) *e = (char *)(any ? p : s);
    return r;
}
long strtol(const char *s, char **e, int base) {
    bool n, o; unsigned long long r = parseU(s, e, base, n, o);
    if (n) { if (o || r > (1ULL << 63)) { errno = ERANGE; return LONG_MIN; } return (long)(0 - r); }
    if (o || r > (unsigned long long)LONG_MAX) { errno = ERANGE; return LONG_MAX; }
    return (long)r;
}
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) {
    bool n, o; unsigned long long r = parseU(s, e, base, n, o);
    if (o) { errno = ERANGE; return ULONG_MAX; }
    return n ? 0 - r : r;
}
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
char *canonicalize_file_name(const char *) { return nullptr; }
char *realpath(const char *, char *) { return nullptr; }
char *dirname(char *s) { return s; }
int stat(const char *, void *) { return -1; }
int fprintf(void *, const char *, ...);

int puts(const char *) { return 0; }
int fputs(const char *, void *) { return 0; }
int fputc(int c, void *) { return c; }
size_t fwrite(const void *, size_t, size_t n, void *) { return n; }
void *stderr = nullptr;
void *stdout = nullptr;
}
