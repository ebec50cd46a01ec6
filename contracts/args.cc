// Contracts for one log call, from NANO_LOG to the printed message.
// For each log site S below (real macro, real templates):
//   prove_rec_S  any argument values, strings of any length (< 2^19 - 64): reservation == bytes filled,
//                staged layout, strings cut where printf cuts them, frame, then the site's
//                compression function: consumes all, stays within 2*argBytes+3, layout decodes.
//   prove_e2e_S  same call, strings up to 3 characters: encoder, dictionary, decoder and
//                the exact printf calls made by the decompressor.
#include "vf_rt_shim.h"
#include "RuntimeLogger.cc"
#include "Log.cc"
#include "NanoLog.cc"
#include "NanoLogCpp17.h"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
using BufferUtils::Nibbler;

static bool gE2E; static uint64_t gTsc0, gTsc1, gTscN;
static void vfTsc() { uint64_t d = gE2E ? 1 : vf_u32("tscStep"); vf_tsc_value = gTsc1 + d; if (!gTscN++) gTsc0 = vf_tsc_value; gTsc1 = vf_tsc_value; }
static RuntimeLogger::StagingBuffer *sb() { return RuntimeLogger::stagingBuffer; }
static RuntimeLogger &RL() { return RuntimeLogger::nanoLogSingleton; }

static void begin(bool e2e) {
    gE2E = e2e;
    PerfUtils::Cycles::cyclesPerSec = 1e9;
    new (&RL()) RuntimeLogger();
    RuntimeLogger::stagingBuffer = nullptr;
    RuntimeLogger::preallocate();
    gTsc1 = 5000; if (!e2e) { gTsc1 = vf_u64("tsc"); vf_assume(gTsc1 < (1ull << 62)); }   // headers: see logfmt.cc
    gTscN = 0; vf_tsc_fn(vfTsc);
}
// a terminated string of any length, or (with precision) an unterminated array of exactly the characters printf may read
static char *S(const char *n) { return (char*)vf_string(gE2E ? 4 : (1 << 19) - 64, 1, 1, n); }
static wchar_t *W(const char *n) { return (wchar_t*)vf_string(gE2E ? 3 : 1 << 17, 4, 1, n); }
static char *U(uint64_t prec, const char *n) { char *s = (char*)vf_string(prec + 1, 1, 0, n); vf_assume(vf_strlen_of(s) == prec); return s; }
template<typename T> static T sym(const char *n) { T t; vf_bytes(&t, sizeof t, n); return t; }
static long double symld(const char *n) { char b[16]; vf_bytes(b, 10, n); memset(b + 10, 0, 6); long double l; memcpy(&l, b, 16); return l; }
template<typename T> static bool sameBits(const T &a, const T &b) { return !memcmp(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof(T)); }

struct Rec {
    UncompressedEntry *ue; const char *p, *end; uint64_t total;
    Rec() {
        vf_assert(RL().invocationSites.size() == 1, "the log site is registered once");
        ue = (UncompressedEntry*)sb()->storage;
        total = sb()->producerPos - sb()->storage;
        vf_assert(ue->entrySize == total, "exactly the announced bytes are committed");
        vf_assert(ue->fmtId == 0, "the message carries its log site's id");
        vf_assert(gTscN >= 1 && ue->timestamp >= gTsc0 && ue->timestamp <= gTsc1, "the timestamp is taken during the call");
        p = ue->argData; end = sb()->storage + total;
    }
    template<typename T> void val(T x) { val(x, x); }
    template<typename T, typename D> void val(T x, D) {
        T y; memcpy(&y, p, sizeof(T)); vf_assert(sameBits(x, y), "argument value staged"); p += sizeof(T);
    }
    void width(int w) { val(w); }
    void prec(int w) { val(w); }
    template<typename C> void str(const C *s, uint64_t maxLen) {
        uint64_t L = std::min<uint64_t>(vf_strlen_of(s), maxLen) * sizeof(C);
        uint32_t n; memcpy(&n, p, 4); vf_assert(n == L, "string length staged as printf would cut it"); p += 4;
        uint64_t k = vf_range(0, (1 << 19) - 1, "k");
        if (k < L) vf_assert(p[k] == ((const char*)s)[k], "string content staged");
        p += L;
    }
    template<typename F> void run(F spec) {
        spec(*this);
        vf_assert(p == end, "reservation equals the bytes filled");
        uint64_t k = vf_range(0, NanoLogConfig::STAGING_BUFFER_SIZE - 1, "f");
        if (k >= total) vf_assert(sb()->storage[k] == 0, "nothing is written behind the reservation");
        compress(spec);
    }
    // compaction
    struct Dec {
        Nibbler *nb; const char *s; 
        template<typename T> void val(T x) { val(x, x); }
        template<typename T, typename D> void val(T x, D d) { D y = nb->getNext<D>(); vf_assert(sameBits(y, d), "argument value survives compaction"); }
        void width(int w) { val(w); }
        void prec(int w) { val(w); }
        template<typename C> void str(const C *c, uint64_t maxLen) {
            uint64_t L = std::min<uint64_t>(vf_strlen_of(c), maxLen) * sizeof(C);
            uint64_t k = vf_range(0, (1 << 19) - 1, "ck");
            if (k < L) vf_assert(s[k] == ((const char*)c)[k], "string content survives compaction");
            for (unsigned j = 0; j < sizeof(C); j++) vf_assert(s[L + j] == 0, "string is terminated");
            s += L + sizeof(C);
        }
    };
    template<typename F> void compress(F spec) {
        StaticLogInfo &info = RL().invocationSites[0];
        uint64_t argBytes = total - sizeof(UncompressedEntry);
        uint64_t room = 2 * argBytes + 3;
        char *out = (char*)malloc(room);
        char *in = (char*)ue->argData, *o = out;
        info.compressionFunction(info.numNibbles, info.paramTypes, &in, &o);
        vf_assert(in == end, "all arguments are consumed");
        vf_assert((uint64_t)(o - out) <= room && (argBytes || o == out), "size contract of the compressor");
        Nibbler nb(out, info.numNibbles);
        Dec d; d.nb = &nb; d.s = nb.getEndOfPackedArguments();
        spec(d);
        vf_assert(d.s == o, "decoding consumes exactly what compaction produced");
        vf_cover("end");
    }
};
struct E2E {
    int ev; const char *fmt; uint64_t fpos; Decoder *dec; LogMessage *lm; int narg; int wp[2], nwp;
    uint64_t line, cpTsc; const char *file;
    void read() {
        StaticLogInfo &info = RL().invocationSites[0];
        uint64_t total = sb()->producerPos - sb()->storage;
        char *out = (char*)malloc(4096);
        vfNow = 1000;
        Encoder enc(out, 4096);
        cpTsc = gTsc1;
        uint32_t pos = 0;
        enc.encodeNewDictionaryEntries(pos, RL().invocationSites);
        long r = enc.encodeLogMsgs(sb()->storage, total, 9, true, RL().invocationSites, nullptr);
        vf_assert(r == (long)total, "the message is encoded");
        vfSetInput(out, vf_concretize(enc.getEncodedBytes()));
        dec = (Decoder*)malloc(sizeof(Decoder)); memset(dec, 0, sizeof *dec);
        new (dec) Decoder();
        vf_assert(dec->open("x"), "the log opens");
        lm = new LogMessage();
        vfResetOut();
        vf_assert(dec->getNextLogStatement(*lm, vfOutFd()), "the message is found");
    }
    void context() {
        VEvent &e = vfEv[0];
        vf_assert(vfNEv >= 2 && !strcmp(e.fmt, "%s.%09.0lf %s:%u %s[%u]: ") && e.n == 6, "context line");
        vf_assert(!strcmp(e.a[2].s, file) && (uint32_t)e.a[3].bits == line, "file and line");
        vf_assert(!strcmp(e.a[4].s, "NOTICE"), "severity");
        vf_assert(e.a[5].bits == 9, "buffer id");
        // the call happened a few cycles (1 GHz) before the checkpoint taken at second 1000
        UncompressedEntry *ue = (UncompressedEntry*)sb()->storage;
        double nanos; memcpy(&nanos, &e.a[1].bits, 8);
        double want = 1e9 - (double)(cpTsc - ue->timestamp);
        vf_assert(vfLocaltimeArg == 999 && e.a[1].kind == 'd' && nanos - want < 0.4 && want - nanos < 0.4, "wall-clock time of the call");
    }
    void fragment() { nwp = 0; }
    template<typename T> void val(T x) { val(x, x); }
    template<typename T, typename D> void val(T, D d) {
        VArg want; vfRec(want, d);
        VEvent &e = vfEv[ev];
        vf_assert(ev < vfNEv && e.n == nwp + 1, "one conversion per printf call, with its width and precision");
        for (int i = 0; i < nwp; i++) vf_assert(e.a[i].kind == 'i' && (int)e.a[i].bits == wp[i], "dynamic width and precision are passed on");
        VArg &g = e.a[nwp];
        vf_assert(g.kind == want.kind, "argument kind");
        if (g.kind == 'L') vf_assert(sameBits(g.ld, want.ld), "argument value printed");
        else vf_assert(g.bits == want.bits, "argument value printed");
        if (!std::is_same<D, long double>::value) { D y = lm->get<typename std::conditional<std::is_same<D, long double>::value, int, D>::type>(narg); vf_assert(sameBits(y, d), "argument handed to readers"); }
        next();
    }
    void next() {
        VEvent &e = vfEv[ev];
        uint64_t n = strlen(e.fmt);
        vf_assert(!strncmp(e.fmt, fmt + fpos, n), "the pieces printed are the format string, in order");
        fpos += n; ++ev; ++narg; nwp = 0;
    }
    void width(int w) { wp[nwp++] = w; }
    void prec(int w) { wp[nwp++] = w; }
    template<typename C> void str(const C *s, uint64_t maxLen) {
        VEvent &e = vfEv[ev];
        vf_assert(ev < vfNEv && e.n == nwp + 1, "one conversion per printf call, with its width and precision");
        for (int i = 0; i < nwp; i++) vf_assert(e.a[i].kind == 'i' && (int)e.a[i].bits == wp[i], "dynamic width and precision are passed on");
        VArg &g = e.a[nwp];
        vf_assert(g.kind == (sizeof(C) == 1 ? 's' : 'w'), "argument kind");
        uint64_t L = vf_concretize(std::min<uint64_t>(vf_strlen_of(s), maxLen));
        const C *got = (const C*)g.s;
        for (uint64_t i = 0; i < L; i++) vf_assert(got[i] == s[i], "string printed");
        vf_assert(got[L] == 0, "string printed, no longer");
        vf_assert(lm->get<const C*>(narg) == got, "string handed to readers");
        next();
    }
    template<typename F> void run(const char *f, const char *fl, uint64_t ln, F spec) {
        fmt = f; fpos = 0; ev = 1; narg = 0; nwp = 0; file = fl; line = ln;
        read(); context(); spec(*this);
        if (narg == 0) { vf_assert(vfNEv > 1 && vfEv[1].n == 0, "plain text"); next(); narg = 0; }
        vf_assert(fmt[fpos] == 0, "the whole format string is printed");
        vf_assert(vfNEv == ev + 1 && !strcmp(vfEv[ev].fmt, "\r\n"), "message ends with a line break and nothing else is printed");
        vf_assert(lm->valid() && lm->getLogId() == 0 && lm->getNumArgs() == narg, "readers see all arguments");
        UncompressedEntry *ue = (UncompressedEntry*)sb()->storage;
        vf_assert(lm->getTimestamp() == ue->timestamp, "readers see the timestamp");
        vf_assert(!dec->getNextLogStatement(*lm, vfOutFd()) && !lm->valid(), "exactly one message");
        quiet(spec);
        vf_cover("end");
    }
    // the same log read once more, printing nothing
    struct Quiet {
        LogMessage *lm; int narg;
        template<typename T> void val(T x) { val(x, x); }
        template<typename T, typename D> void val(T, D d) {
            if (!std::is_same<D, long double>::value) { D y = lm->get<typename std::conditional<std::is_same<D, long double>::value, int, D>::type>(narg); vf_assert(sameBits(y, d), "argument handed to readers when nothing is printed"); }
            ++narg;
        }
        void width(int) {}
        void prec(int) {}
        template<typename C> void str(const C *s, uint64_t maxLen) {
            uint64_t L = vf_concretize(std::min<uint64_t>(vf_strlen_of(s), maxLen));
            const C *got = lm->get<const C*>(narg++);
            for (uint64_t i = 0; i < L; i++) vf_assert(got[i] == s[i], "string handed to readers when nothing is printed");
            vf_assert(got[L] == 0, "string handed to readers when nothing is printed");
        }
    };
    template<typename F> void quiet(F spec) {
        Decoder *d = (Decoder*)malloc(sizeof(Decoder)); memset(d, 0, sizeof *d);
        new (d) Decoder();
        vf_assert(d->open("x"), "the log opens again");
        vfResetOut(); int errs = vfErrs;
        Quiet q; q.lm = new LogMessage(); q.narg = 0;
        vf_assert(d->getNextLogStatement(*q.lm, nullptr), "the message is found when nothing is printed");
        spec(q);
        vf_assert(q.lm->valid() && q.lm->getLogId() == 0 && q.lm->getNumArgs() == narg, "readers see all arguments when nothing is printed");
        vf_assert(!d->getNextLogStatement(*q.lm, nullptr) && !q.lm->valid(), "exactly one message when nothing is printed");
        vf_assert(vfNEv == 0 && vfErrs == errs, "nothing is printed");
    }
};
#define NL(...) NANO_LOG(__VA_ARGS__)
#define SITE(NAME, FMT, PREP, ARGS, ...) \
extern "C" void prove_rec_##NAME() { begin(false); PREP; NL(NOTICE, FMT PARENS ARGS); auto spec = [&](auto &c) { __VA_ARGS__; }; Rec r; r.run(spec); } \
extern "C" void prove_e2e_##NAME() { begin(true); PREP; uint64_t ln = __LINE__; NL(NOTICE, FMT PARENS ARGS); auto spec = [&](auto &c) { __VA_ARGS__; }; E2E r; r.run(FMT, __FILE__, ln, spec); }
#define PARENS(...) , ##__VA_ARGS__
#define NOARGS(...)

extern "C" void prove_rec_plain() { begin(false); NANO_LOG(NOTICE, "plain 100%%"); Rec r; r.run([&](auto &c) {}); }
extern "C" void prove_e2e_plain() { begin(true); uint64_t ln = __LINE__; NANO_LOG(NOTICE, "plain 100%%"); E2E r; r.run("plain 100%%", __FILE__, ln, [&](auto &c) {}); }

SITE(int, "i=%d", int i = sym<int>("i"), (i), c.val(i))
SITE(uint, "%u|", unsigned i = sym<unsigned>("i"), (i), c.val(i))
SITE(long, "%ld", long i = sym<long>("i"), (i), c.val(i))
SITE(ulong, "%lu %o", unsigned long u = sym<unsigned long>("u"); unsigned o = 8, (u, o), c.val(u); c.val(o))
SITE(llong, "%lld", long long i = sym<long long>("i"), (i), c.val(i))
SITE(ullong, "%X %llx", unsigned o = 300; unsigned long long u = sym<unsigned long long>("u"), (o, u), c.val(o); c.val(u))
SITE(small, "%hhd %hhu %hd %hu", signed char a = sym<signed char>("a"); unsigned char b = sym<unsigned char>("b"); short d = sym<short>("d"); unsigned short e = sym<unsigned short>("e"), (a, b, d, e), c.val(a); c.val(b); c.val(d); c.val(e))
SITE(promoted, "%d %d %u %d", signed char a = sym<signed char>("a"); short b = sym<short>("b"); unsigned short d = sym<unsigned short>("d"); bool e = vf_bool("e"), (a, b, d, e), c.val(a, (int)a); c.val(b, (int)b); c.val(d, (unsigned)d); c.val(e, (int)e))
SITE(narrowed, "%hhd %hu", int a = sym<int>("a"); int b = sym<int>("b"), (a, b), c.val(a, (signed char)a); c.val(b, (unsigned short)b))
SITE(char, "<%c>", char a = sym<char>("a"), (a), c.val(a, (int)a))
SITE(max, "%jd %zu", intmax_t a = sym<intmax_t>("a"); size_t b = 70000, (a, b), c.val(a); c.val(b))
SITE(size, "%zu %td", size_t b = sym<size_t>("b"); ptrdiff_t d = -3, (b, d), c.val(b); c.val(d))
SITE(diff, "%td %ju", ptrdiff_t d = sym<ptrdiff_t>("d"); uintmax_t e = 1, (d, e), c.val(d); c.val(e))
SITE(umax, "%i %ju", int i = -1; uintmax_t e = sym<uintmax_t>("e"), (i, e), c.val(i); c.val(e))
SITE(flt, "%f %e", float f = sym<float>("f"); double d = sym<double>("d"), (f, d), c.val(f, (double)f); c.val(d))
SITE(dbl, "%5.2lf%%", double d = sym<double>("d"), (d), c.val(d))
SITE(ldbl, "%Lf!", long double d = symld("d"), (d), c.val(d))
SITE(ptr, "p=%p", void *p = (void*)sym<uint64_t>("p"), (p), c.val(p, (const void*)p))
SITE(charptr, "p=%p", char *p = (char*)sym<uint64_t>("p"), (p), c.val((const void*)p, (const void*)p))
SITE(str, "s=%s.", char *s = S("s"), (s), c.str(s, -1))
SITE(cstr, "s=%s.", const char *s = S("s"), (s), c.str(s, -1))
SITE(str2, "%s and %s", char *s = S("s"); char *t = S("t"), (s, t), c.str(s, -1); c.str(t, -1))
SITE(strprec, "[%.2s]", char *s = S("s"), (s), c.str(s, 2))
SITE(strprec0, "[%.0s]", char *s = S("s"), (s), c.str(s, 0))
SITE(strdyn, "[%.*s]", int p = sym<int>("p"); char *s = S("s"), (p, s), c.prec(p); c.str(s, p < 0 ? ~0ull : (uint64_t)p))
SITE(strunterm, "[%.2s]", char *s = U(2, "s"), (s), c.str(s, 2))
SITE(strwidth, "[%*.*s]", int w = (int8_t)vf_u8("w"); int p = sym<int>("p"); char *s = S("s"), (w, p, s), c.width(w); c.prec(p); c.str(s, p < 0 ? ~0ull : (uint64_t)p))
SITE(dynnum, "%*d %.*f", int w = sym<int>("w"); int i = sym<int>("i"); int p = sym<int>("p"); double d = sym<double>("d"), (w, i, p, d), c.width(w); c.val(i); c.prec(p); c.val(d))
SITE(wstr, "%ls", wchar_t *s = W("s"), (s), c.str(s, -1))
SITE(wstrprec, "%.1ls %d", wchar_t *s = W("s"); int i = sym<int>("i"), (s, i), c.str(s, 1); c.val(i))
extern "C" void prove_e2e_wstrs() { begin(true); wchar_t *s = W("s"); const wchar_t *t = L"a wide string"; uint64_t ln = __LINE__; NANO_LOG(NOTICE, "%ls%ls|%s", s, t, "q");
    E2E r; r.run("%ls%ls|%s", __FILE__, ln, [&](auto &c) { c.str(s, -1); c.str(t, -1); c.str("q", -1); }); }
SITE(mix, "%d %s %p %.1s %lf", int i = (int8_t)vf_u8("i"); char *s = S("s"); void *p = (void*)0x7fff12345678; const char *t = "xyz"; double d = sym<double>("d"), (i, s, p, t, d), c.val(i); c.str(s, -1); c.val(p, (const void*)p); c.str(t, 1); c.val(d))
SITE(mix2, "%s%d%s%d%d", char *s = S("s"); int i = (int8_t)vf_u8("i"); const char *t = "q"; int j = -70000; int k = (int8_t)vf_u8("kk"), (s, i, t, j, k), c.str(s, -1); c.val(i); c.str(t, -1); c.val(j); c.val(k))
SITE(many, "%d%d%d%d%d%d%d%d%d%d%d%d", uint8_t x = vf_u8("x"), (x, x, 1, 2, 3, 4, 5, 6, 7, 8, x, x), c.val(x, (int)x); c.val(x, (int)x); c.val(1); c.val(2); c.val(3); c.val(4); c.val(5); c.val(6); c.val(7); c.val(8); c.val(x, (int)x); c.val(x, (int)x))
static unsigned char *UC(const char *n) { return (unsigned char*)S(n); }
SITE(ucstr, "u=%s.", unsigned char *s = UC("s"), (s), c.str((const char*)s, -1))
SITE(cucstr, "[%.2s]", const unsigned char *s = UC("s"), (s), c.str((const char*)s, 2))
SITE(scstr, "%s", signed char *s = (signed char*)UC("s"), (s), c.str((const char*)s, -1))
SITE(ucptr, "%p", unsigned char *p = (unsigned char*)sym<uint64_t>("p"), (p), c.val((const void*)p, (const void*)p))
