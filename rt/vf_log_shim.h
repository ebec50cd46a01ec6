// Puts Log.cc / RuntimeLogger.cc on in-memory files and a recorded output.
// Included before the real source; replaces only libc I/O and time calls.
#ifndef VF_LOG_SHIM
#define VF_LOG_SHIM
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <ctime>
#include <string>
#include <vector>
#include <algorithm>
#include <type_traits>
#include <cassert>

// ---- in-memory input file
struct VFile { const char *data; uint64_t size, pos; bool eof; int ungot; bool open; };
static VFile vfIn;
static FILE *vfInFd() { return reinterpret_cast<FILE*>(&vfIn); }
static void vfSetInput(const char *d, uint64_t n) { vfIn.data = d; vfIn.size = n; vfIn.pos = 0; vfIn.eof = false; vfIn.ungot = -1; vfIn.open = true; }

static FILE *vf_fopen(const char *, const char *) { vfIn.pos = 0; vfIn.eof = false; vfIn.ungot = -1; vfIn.open = true; return vfInFd(); }
static int vf_fclose(FILE *) { vfIn.open = false; return 0; }
static size_t vf_fread(void *p, size_t sz, size_t cnt, FILE *) {
    uint64_t want = (uint64_t)sz * cnt, got = 0; char *o = (char*)p;
    if (want == 0) return 0;
    if (vfIn.ungot >= 0) { *o++ = (char)vfIn.ungot; vfIn.ungot = -1; got = 1; }
    uint64_t avail = vfIn.size - vfIn.pos, n = want - got;
    if (n > avail) { n = avail; vfIn.eof = true; }
    if (n) memcpy(o, vfIn.data + vfIn.pos, n);
    vfIn.pos += n; got += n;
    return got / sz;
}
static int vf_fgetc(FILE *) {
    if (vfIn.ungot >= 0) { int c = vfIn.ungot; vfIn.ungot = -1; return c; }
    if (vfIn.pos >= vfIn.size) { vfIn.eof = true; return EOF; }
    return (unsigned char)vfIn.data[vfIn.pos++];
}
static int vf_ungetc(int c, FILE *) { if (c == EOF) return EOF; vfIn.ungot = (unsigned char)c; vfIn.eof = false; return c; }
static int vf_feof(FILE *) { return vfIn.eof; }

// ---- recorded output
struct VArg { char kind; uint64_t bits; const char *s; long double ld; };   // i,d,L,s,w,p
struct VEvent { const char *fmt; int n; VArg a[8]; };
static const int VF_MAXEV = 96;
static VEvent vfEv[VF_MAXEV];
static int vfNEv;
static char vfOutObj;
static FILE *vfOutFd() { return reinterpret_cast<FILE*>(&vfOutObj); }
static int vfErrs;                       // messages to stderr
static bool vfNoRec;                     // output is not recorded

template<typename T> static typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type
vfRec(VArg &a, T v) { a.kind = 'i'; a.bits = sizeof(T) < 8 ? (std::is_signed<T>::value ? (uint64_t)(uint32_t)(int32_t)v : (uint64_t)(uint32_t)v) : (uint64_t)v; }
static void vfRec(VArg &a, double v) { a.kind = 'd'; memcpy(&a.bits, &v, 8); }
static void vfRec(VArg &a, float v) { double d = v; vfRec(a, d); }
static void vfRec(VArg &a, long double v) { a.kind = 'L'; memset(&a.ld, 0, sizeof a.ld); memcpy(&a.ld, &v, sizeof v); }
static void vfRec(VArg &a, const char *v) { a.kind = 's'; a.s = v; a.bits = (uint64_t)v; }
static void vfRec(VArg &a, char *v) { vfRec(a, (const char*)v); }
static void vfRec(VArg &a, const wchar_t *v) { vf_assert(((uintptr_t)v & 3) == 0, "wide string functions are given aligned strings"); a.kind = 'w'; a.s = (const char*)v; a.bits = (uint64_t)v; }
template<typename T> static void vfRec(VArg &a, T *v) { a.kind = 'p'; a.bits = (uint64_t)v; }
static void vfRecAll(VEvent &) {}
template<typename T, typename... R> static void vfRecAll(VEvent &e, T v, R... r) { if (e.n < 8) { vfRec(e.a[e.n], v); e.n++; } vfRecAll(e, r...); }
template<typename... A> static int vf_fprintf(FILE *fd, const char *fmt, A... a) {
    if (fd != vfOutFd()) { ++vfErrs; return 0; }
    if (vfNoRec) return 0;
    if (vfNEv < VF_MAXEV) { VEvent &e = vfEv[vfNEv++]; e.fmt = fmt; e.n = 0; vfRecAll(e, a...); }
    else vf_fail("output recorder overflow (harness bound)");
    return 0;
}
template<typename... A> static int vf_printf(const char *, A...) { return 0; }
static void vfResetOut() { vfNEv = 0; }

// ---- time
static struct tm vfTm; static time_t vfLocaltimeArg; static time_t vfNow; static uint64_t vfTimeCalls;
static struct tm *vf_localtime(const time_t *t) { vfLocaltimeArg = *t; return &vfTm; }
static size_t vf_strftime(char *s, size_t n, const char *, const struct tm *) { if (n) { s[0] = 'T'; if (n > 1) s[1] = 0; } return 1; }
static time_t vf_time(time_t *t) { if (t) *t = vfNow; ++vfTimeCalls; return vfNow; }

#include <ctime>
#include <regex>
namespace std { using ::vf_localtime; using ::vf_strftime; using ::vf_time; }
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fgetc vf_fgetc
#define ungetc vf_ungetc
#define feof vf_feof
#define fprintf vf_fprintf
#define printf vf_printf
#define localtime vf_localtime
#define strftime vf_strftime
#define time(x) vf_time(x)
#endif
