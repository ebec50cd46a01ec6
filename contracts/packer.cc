// Contracts for runtime/Packer.h
#include "vf.h"
#include "Packer.h"
using namespace BufferUtils;

static const uint64_t BUF = 24;

// length denoted by a pack code (the wire format: 1..8 plain, 9..15 negated)
static uint32_t lenOf(int code) { return code > 8 ? code - 8 : code; }
template<typename T> static uint64_t bitsOf(const T &t) { uint64_t b = 0; memcpy(&b, &t, sizeof(T)); return b; }
template<typename T> static T bits() { T t; vf_bytes(&t, sizeof(T), "v"); return t; }

// Contract of pack<T>/unpack<T>: for every value v and any buffer with sizeof(T)
// bytes left: pack returns a code in 1..15 whose decoded length is exactly the
// cursor advance, touches nothing in front of the cursor, and unpack<T> with that
// code returns v and consumes the same number of bytes whatever follows.
#define PACK_CONTRACT(NAME, T, MAKE)                                          \
extern "C" void prove_pack_##NAME() {                                         \
    char buf[BUF]; vf_bytes(buf, BUF, "buf");                                 \
    char before[BUF]; memcpy(before, buf, BUF);                               \
    const uint64_t at = 3;                                                    \
    T v = MAKE;                                                               \
    char *room = buf + at + sizeof(T);                                        \
    char *p = buf + at;                                                       \
    int code = pack(&p, v);                                                   \
    vf_assert(code >= 1 && code <= 15, "pack code fits a nibble and is never 0"); \
    uint64_t adv = p - (buf + at);                                            \
    vf_assert(adv == lenOf(code), "bytes produced match the pack code");      \
    vf_assert(adv <= sizeof(T), "never larger than the value");               \
    for (uint64_t i = 0; i < at; ++i)                                         \
        vf_assert(buf[i] == before[i], "bytes before the cursor untouched");  \
    for (char *c = room; c < buf + BUF; ++c)                                  \
        vf_assert(*c == before[c - buf], "never writes more than sizeof(value) bytes"); \
    TwoNibbles tn; tn.first = code & 0xf; tn.second = 0;                      \
    vf_assert(getSizeOfPackedValues(&tn, 1) == adv, "declared size equals bytes produced"); \
    /* whatever is written behind the cursor later must not matter */         \
    char wire[BUF]; vf_bytes(wire, BUF, "later");                             \
    memcpy(wire, buf, at + adv);                                              \
    const char *q = wire + at;                                                \
    T w = unpack<T>(&q, (uint8_t)tn.first);                                   \
    vf_assert(bitsOf(w) == bitsOf(v), "value round trips");                   \
    vf_assert((uint64_t)(q - wire) == at + adv, "bytes consumed equal bytes produced"); \
    /* exactly the packed bytes are enough: no read past them */              \
    char *exact = new char[adv]; memcpy(exact, buf + at, adv);                \
    q = exact;                                                                \
    w = unpack<T>(&q, (uint8_t)tn.first);                                     \
    vf_assert(bitsOf(w) == bitsOf(v), "value round trips from a tight buffer"); \
    vf_cover("end");                                                          \
}

PACK_CONTRACT(u8, uint8_t, vf_u8("v"))
PACK_CONTRACT(u16, uint16_t, vf_u16("v"))
PACK_CONTRACT(u32, uint32_t, vf_u32("v"))
PACK_CONTRACT(u64, uint64_t, vf_u64("v"))
PACK_CONTRACT(ull, unsigned long long, (unsigned long long)vf_u64("v"))
PACK_CONTRACT(i32, int32_t, (int32_t)vf_u32("v"))
PACK_CONTRACT(i64, int64_t, (int64_t)vf_u64("v"))
PACK_CONTRACT(ll, long long, (long long)vf_u64("v"))
PACK_CONTRACT(dbl, double, bits<double>())
PACK_CONTRACT(flt, float, bits<float>())

extern "C" void prove_pack_ptr() {
    char buf[BUF]; uint64_t v = vf_u64("v"); char *p = buf;
    int code = pack(&p, (void*)v);
    vf_assert(code >= 1 && code <= 8, "pack code fits a nibble and is never 0");
    vf_assert((uint64_t)(p - buf) == lenOf(code), "bytes produced match the pack code");
    const char *q = buf;
    const void *w = unpack<const void*>(&q, (uint8_t)code);
    vf_assert((uint64_t)w == v, "value round trips");
    vf_assert(q == p, "bytes consumed equal bytes produced");
    vf_cover("end");
}

extern "C" void prove_pack_longdouble() {
    char buf[32]; vf_bytes(buf, 32, "buf");
    unsigned char img[16]; vf_bytes(img, 16, "v");
    long double v; memcpy(&v, img, 16);
    char *p = buf + 1;
    int code = pack(&p, v);
    vf_assert(p == buf + 1 + 16, "bytes produced match the pack code");
    TwoNibbles tn; tn.first = code & 0xf; tn.second = 1;
    vf_assert(getSizeOfPackedValues(&tn, 1) == 16, "declared size equals bytes produced");
    const char *q = buf + 1;
    long double w = unpack<long double>(&q, (uint8_t)tn.first);
    vf_assert(q == p, "bytes consumed equal bytes produced");
    unsigned char img2[16]; memcpy(img2, &w, 16);
    for (int i = 0; i < 10; ++i) vf_assert(img2[i] == img[i], "value round trips");
    vf_cover("end");
}

// a float logged through a double specifier: the receiver asks for a double
extern "C" void prove_unpack_float_as_double() {
    float f = bits<float>();
    char buf[8]; char *p = buf;
    int code = pack(&p, f);
    const char *q = buf;
    double d = unpack<double>(&q, (uint8_t)code);
    vf_assert(bitsOf(d) == bitsOf((double)f), "float read back as double keeps its value");
    vf_assert(q == p, "bytes consumed equal bytes produced");
    vf_cover("end");
}

static uint32_t sizeOfCode(uint8_t c) { return c == 0 ? 16 : c > 8 ? c - 8 : c; }

// getSizeOfPackedValues: the sum of the lengths the codes denote; every code vector
// of length 0..6 ...
extern "C" void prove_sizeof_packed_values() {
    uint32_t n = (uint32_t)vf_pick(0, 6, "n");
    TwoNibbles *tn = new TwoNibbles[(n + 1) / 2];
    vf_bytes(tn, (n + 1) / 2, "codes");
    uint32_t want = 0;
    for (uint32_t i = 0; i < n; ++i)
        want += sizeOfCode((i & 1) ? tn[i / 2].second : tn[i / 2].first);
    vf_assert(getSizeOfPackedValues(tn, n) == want, "declared size is the sum of all value sizes");
    vf_cover("end");
}
// ... and every length 0..255 with arbitrary first and last codes around a background code
extern "C" void prove_sizeof_packed_values_long() {
    uint32_t n = (uint32_t)vf_pick(2, 255, "n");
    uint8_t bg = (uint8_t)(n % 4 == 0 ? 8 : n % 4 == 1 ? 0 : n % 4 == 2 ? 15 : 4);
    TwoNibbles *tn = new TwoNibbles[(n + 1) / 2];
    uint8_t first = (uint8_t)vf_range(0, 15, "first"), last = (uint8_t)vf_range(0, 15, "last");
    for (uint32_t i = 0; i < n; ++i) {
        uint8_t c = i == 0 ? first : i == n - 1 ? last : bg;
        if (i & 1) tn[i / 2].second = c; else tn[i / 2].first = c;
    }
    vf_assert(getSizeOfPackedValues(tn, n) == sizeOfCode(first) + sizeOfCode(last) + (n - 2) * sizeOfCode(bg),
              "declared size is the sum of all value sizes");
    vf_cover("end");
}

// Nibbler: each getNext decodes the value at the running offset with its own code, and
// the end pointer is where the last value stops.  Every code vector up to length 3, and
// length 4..5 over the boundary codes.
static void nibblerSequence(int n, const uint8_t *code) {
    uint64_t off[6];
    TwoNibbles hdr[3]; memset(hdr, 0, sizeof hdr);
    uint64_t o = (n + 1) / 2;
    for (int i = 0; i < n; ++i) {
        if (i & 1) hdr[i / 2].second = code[i]; else hdr[i / 2].first = code[i];
        off[i] = o;
        o += code[i] > 8 ? code[i] - 8 : code[i];
    }
    off[n] = o;
    char buf[64]; vf_bytes(buf, 64, "stream");
    memcpy(buf, hdr, (n + 1) / 2);
    Nibbler nb(buf, n);
    vf_assert(nb.getEndOfPackedArguments() == buf + off[n], "end of packed arguments is exact");
    for (int i = 0; i < n; ++i) {
        uint64_t want = 0; int len = code[i] > 8 ? code[i] - 8 : code[i];
        for (int j = 0; j < len; ++j) want |= (uint64_t)(uint8_t)buf[off[i] + j] << (8 * j);
        if (code[i] > 8) want = 0 - want;
        vf_assert(nb.getNext<uint64_t>() == want, "values come back in order, each with its own code");
    }
    vf_cover("end");
}
extern "C" void prove_nibbler_sequence() {
    int n = (int)vf_pick(1, 3, "n");
    uint8_t code[5];
    for (int i = 0; i < n; ++i) code[i] = (uint8_t)vf_pick(1, 15, "code");
    nibblerSequence(n, code);
}
extern "C" void prove_nibbler_sequence5() {
    static const uint8_t cs[4] = {1, 8, 9, 15};
    int n = (int)vf_pick(4, 5, "n");
    uint8_t code[5];
    for (int i = 0; i < n; ++i) code[i] = cs[vf_pick(0, 3, "code")];
    nibblerSequence(n, code);
}

// long streams (parity, header sizes): every length up to 255 with a uniform code
extern "C" void prove_nibbler_long() {
    int n = (int)vf_pick(1, 255, "n");
    uint8_t c = (uint8_t)(n % 3 == 0 ? 2 : n % 3 == 1 ? 1 : 9);
    int len = c > 8 ? c - 8 : c;
    char *buf = new char[(n + 1) / 2 + n * len];
    for (int i = 0; i < (n + 1) / 2; ++i) buf[i] = (char)(c | c << 4);
    if (n & 1) buf[n / 2] = (char)(c | 0xf0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < len; ++j) buf[(n + 1) / 2 + i * len + j] = (char)(j == 0 ? i + 1 : 1);
    Nibbler nb(buf, n);
    vf_assert(nb.getEndOfPackedArguments() == buf + (n + 1) / 2 + n * len, "end of packed arguments is exact");
    for (int i = 0; i < n; ++i) {
        uint64_t want = (uint8_t)(i + 1);
        if (len == 2) want |= 0x100;
        if (c > 8) want = 0 - want;
        vf_assert(nb.getNext<uint64_t>() == want, "values come back in order, each with its own code");
    }
    vf_cover("end");
}
