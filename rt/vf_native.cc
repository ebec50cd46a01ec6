// Native side of the contract language: replays a verifier counterexample against
// the real code compiled with g++/ASan.  argv[1] = entry, argv[2] = inputs file.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
struct In { char k; uint64_t v; std::string name, hex; };
static std::vector<In> ins; static size_t pos;
extern "C" {
uint64_t vf_tsc_value;
static void finish(int code, const char *what, const char *label) {
    fflush(stdout); fflush(stderr);
    char b[512]; int n = snprintf(b, sizeof b, "%s %s\n", what, label); (void)!write(2, b, n);
    _exit(code);
}

static bool rnd; static uint64_t rs; static FILE *rec;
static uint64_t R() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static uint64_t rndVal(int w) {
    uint64_t v = R();
    switch (R() % 8) {
    case 0: v &= 0xf; break; case 1: v &= 0xff; break; case 2: v = 1ULL << (R() % w); break;
    case 3: v = (1ULL << (R() % w)) - 1; break; case 4: v = 0 - (1ULL << (R() % w)); break; case 5: v = 0 - (v & 0xff); break;
    case 6: v &= (1ULL << (R() % w)) - 1; break; default: break; }
    return w >= 64 ? v : v & ((1ULL << w) - 1);
}
static void recS(uint64_t v, const char *n) { if (rec) { fprintf(rec, "s %lu %s\n", v, n); fflush(rec); } }
static In next(char k, const char *name) {
    while (pos < ins.size() && ins[pos].name[0] == '@' && ins[pos].name != name) pos++;   // inputs of a callee contract not used natively
    if (pos >= ins.size()) finish(60, "REPLAY-EXHAUSTED", name);
    In i = ins[pos++];
    if (i.k != k || i.name != name) { fprintf(stderr, "want %c %s got %c %s\n", k, name, i.k, i.name.c_str()); finish(61, "REPLAY-MISMATCH", name); }
    return i;
}
static uint64_t scalar(int w, const char *n) { if (rnd) { uint64_t v = rndVal(w); recS(v, n); return v; } return next('s', n).v; }
uint64_t vf_u64(const char *n) { return scalar(64, n); }
uint32_t vf_u32(const char *n) { return (uint32_t)scalar(32, n); }
uint16_t vf_u16(const char *n) { return (uint16_t)scalar(16, n); }
uint8_t vf_u8(const char *n) { return (uint8_t)scalar(8, n); }
bool vf_bool(const char *n) { if (rnd) { uint64_t v = R() & 1; recS(v, n); return v; } return next('s', n).v & 1; }
uint64_t vf_native_range(uint64_t lo, uint64_t hi, const char *n) {
    if (rnd) { uint64_t v = (hi - lo == ~0ULL) ? R() : lo + R() % (hi - lo + 1); if (R() % 8 == 0) v = hi; if (R() % 8 == 0) v = lo; if (R() % 4 == 0 && hi - lo > 64) v = lo + R() % 64; recS(v, n); return v; }
    uint64_t v = next('s', n).v; vf_assume(v >= lo && v <= hi); return v;
}
static void fill(unsigned char *p, uint64_t n, const std::string &hex) {
    auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (uint64_t i = 0; i < n; i++) p[i] = 2 * i + 1 < hex.size() ? (h(hex[2 * i]) << 4 | h(hex[2 * i + 1])) : 0;
}
static void recA(const unsigned char *p, uint64_t n, uint64_t decl, const char *name) {
    if (!rec) return;
    fprintf(rec, "a %lu %s ", decl, name); if (!n) fprintf(rec, "-");
    for (uint64_t i = 0; i < n; i++) fprintf(rec, "%02x", p[i]);
    fprintf(rec, "\n"); fflush(rec);
}
void vf_bytes(void *p, uint64_t n, const char *name) {
    if (rnd) { unsigned char *c = (unsigned char*)p; int m = R() % 4; for (uint64_t i = 0; i < n; i++) c[i] = m == 0 ? 0 : m == 1 ? R() & 3 : m == 2 ? 0x20 + R() % 95 : R(); recA(c, n, n, name); return; }
    In i = next('a', name); fill((unsigned char*)p, n, i.hex == "-" ? "" : i.hex);
}
static std::vector<std::pair<const void*, uint64_t>> strs;
uint64_t vf_native_strlen(const void *p) { for (auto &x : strs) if (x.first == p) return x.second; return ~0ull; }
void *vf_string(uint64_t cap, int es, int term, const char *name) {
    std::string ln = std::string(name) + ".len"; uint64_t L; std::string hex;
    if (rnd) { L = R() % (cap < 40 ? cap : 40); recS(L, ln.c_str()); }
    else { L = next('s', ln.c_str()).v; In i = next('a', name); hex = i.hex == "-" ? "" : i.hex; }
    unsigned char *p = (unsigned char*)malloc((L + (term ? 1 : 0)) * es);
    if (rnd) for (uint64_t i = 0; i < L * es; i++) p[i] = R(); else fill(p, L * es, hex);
    for (uint64_t k = 0; k < L; k++) { bool z = true; for (int j = 0; j < es; j++) if (p[k * es + j]) z = false; if (z) p[k * es] = 'a' + k % 26; }
    if (rnd) recA(p, L * es, L * es, name);
    if (term) memset(p + L * es, 0, es);
    strs.push_back({p, L});
    return p;
}
void vf_assume(bool c) { if (!c) finish(62, "ASSUME-FALSE", ""); }
void vf_assert(bool c, const char *l) { if (!c) finish(42, "ASSERT-FAILED", l); }
void vf_fail(const char *l) { finish(42, "ASSERT-FAILED", l); }
void vf_cover(const char *) {}
uint64_t vf_concretize(uint64_t v) { return v; }
int vf_is_symbolic(uint64_t) { return 0; }
int vf_native(void) { return 1; }
static std::vector<std::pair<std::string, void*>> *repl;      // effective in instrumented binaries
void vf_replace(const char *n, void *f) { if (!repl) repl = new std::vector<std::pair<std::string, void*>>; repl->push_back({n, f}); }
void vf_unreplace(const char *n) { if (repl) for (auto &r : *repl) if (r.first == n) r.second = nullptr; }
void *__vf_repl(const char *n) { if (repl) for (auto &r : *repl) if (r.first == n) return r.second; return nullptr; }
uint64_t vf_choose_sym(uint64_t n, const char *name) { return vf_native_range(0, n - 1, name); }
static int memos;
void vf_memo(void) { if (rnd && ++memos > 3000) finish(0, "END", "random run long enough"); }
void vf_compact(void) {}
void vf_on_throw(void (*)(void)) {}
static int allowAbort;
void vf_allow_abort(int a) { allowAbort = a; }
void vf_end(void) { finish(0, "END", ""); }
void vf_prune(void) { finish(62, "PRUNED", ""); }
void vf_bounded(void) { finish(62, "BOUNDED", ""); }
void vf_freeze(void *, int) {}
void vf_loop_cut(const char *) {}
void vf_loop_pre(void (*)(void)) {}
void vf_trace(const char *t, uint64_t v) { if (getenv("VF_TRACE")) fprintf(stderr, "[trace] %s %lu\n", t, v); }
// --- hooks (only active in binaries instrumented by vfe-instr)
struct H { char *lo, *hi; void (*fn)(void*, uint64_t, int); };
static std::vector<H> *hooks; static int inHook; static void (*fenceFn)(int); static void (*tscFn)();
void vf_share(void *lo, uint64_t n, void (*fn)(void*, uint64_t, int)) { if (!hooks) hooks = new std::vector<H>; hooks->push_back({(char*)lo, (char*)lo + n, fn}); }
void vf_unshare(void) { if (hooks) hooks->clear(); }
void vf_on_fence_fn(void (*f)(int)) { fenceFn = f; }
void vf_tsc_fn(void (*f)(void)) { tscFn = f; }
void __vf_access(void *p, uint64_t n, int kind) {
    if (!hooks || inHook) return;
    for (auto &h : *hooks) if ((char*)p < h.hi && (char*)p + n > h.lo) { inHook = 1; h.fn(p, n, kind); inHook = 0; return; }
}
void __vf_fence(int kind) { if (fenceFn && !inHook) { inHook = 1; fenceFn(kind); inHook = 0; } }
static bool started;
uint64_t __vf_rdtsc(void) { if (!started) return __builtin_ia32_rdtsc(); if (tscFn && !inHook) { inHook = 1; tscFn(); inHook = 0; } return vf_tsc_value; }
}
int main(int argc, char **argv) {
    if (argc < 3) return 64;
    if (!strcmp(argv[2], "--random")) { rnd = true; rs = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; rec = fopen(argv[4], "w"); for (int i = 0; i < 8; i++) R(); }
    else {
    std::ifstream f(argv[2]); std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line); In i; s >> i.k >> i.v >> i.name; if (i.k == 'a') s >> i.hex; ins.push_back(i);
    }
    }
    void (*fn)() = (void(*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 64; }
    started = true;
    fn();
    finish(0, "END", "");
}
