// Bodies for libc functions the code under contract calls (engine side only).
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <wchar.h>
uint64_t vf_strtag(const void *p, int elemSize);
uint64_t vf_tsc_value;
void vf_assert(_Bool c, const char *m);
// the C library's wide string functions work on aligned strings only
#define ALIGNED(s) vf_assert(((uintptr_t)(s) & 3) == 0, "wide string functions are given aligned strings")
size_t strlen(const char *s) {
    uint64_t t = vf_strtag(s, 1);
    if (t != ~0ULL) { volatile char c = s[t]; (void)c; return t; }
    size_t n = 0; while (s[n]) ++n; return n;
}
size_t strnlen(const char *s, size_t m) {
    uint64_t t = vf_strtag(s, 1);
    if (t != ~0ULL) { if (t < m) { volatile char c = s[t]; (void)c; return t; } if (m) { volatile char c = s[m-1]; (void)c; } return m; }
    size_t n = 0; while (n < m && s[n]) ++n; return n;
}
size_t wcslen(const wchar_t *s) {
    ALIGNED(s);
    uint64_t t = vf_strtag(s, 4);
    if (t != ~0ULL) { volatile wchar_t c = s[t]; (void)c; return t; }
    size_t n = 0; while (s[n]) ++n; return n;
}
size_t wcsnlen(const wchar_t *s, size_t m) {
    ALIGNED(s);
    uint64_t t = vf_strtag(s, 4);
    if (t != ~0ULL) { if (t < m) { volatile wchar_t c = s[t]; (void)c; return t; } if (m) { volatile wchar_t c = s[m-1]; (void)c; } return m; }
    size_t n = 0; while (n < m && s[n]) ++n; return n;
}
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char *strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); memcpy(d, s, n); if (n < m) memset(d + n, 0, m - n); return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { ++a; ++b; --n; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int vf_is_symbolic(unsigned long v);
int memcmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y;
    if (!vf_is_symbolic(n) && n <= 64) {          // no case split
        int r = 0;
        for (size_t i = n; i-- > 0;) { int d = (int)a[i] - (int)b[i], m = -(int)(d != 0); r = (m & d) | (~m & r); }
        return r;
    }
    for (; n; --n, ++a, ++b) if (*a != *b) return *a - *b;
    return 0;
}
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = (const unsigned char*)x; for (; n; --n, ++a) if (*a == (unsigned char)c) return (void*)a; return 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
int isdigit(int c) { return c >= '0' && c <= '9'; }
