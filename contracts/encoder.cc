// Contracts for Encoder::encodeLogMsgs and swapBuffer.  The compression function of a
// log statement is an arbitrary function that respects its size contract
// (at most 2*argBytes + 3 bytes; discharged for the real ones in cpp17args.cc).
#include "vf_log_shim.h"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

static char *gIn, *gOut0, *gOutEnd;        // input buffer, output buffer
static uint64_t gN, gFrom, gLast, gCap;    // input size, next message, last timestamp, output size
static char *gOut;                         // where the next message must start
static uint64_t gCount, gLimit;
static char *gArgs; static uint64_t gArgLen;   // last argument blob written (for checks)

// contract of compressLogHeader (discharged in logfmt.cc: prove_log_header_roundtrip):
// 3..13 bytes are written at *out, *out advances past them, and they decode to the
// entry's id and timestamp relative to the given last timestamp
static char *hStart, *hEnd; static uint32_t hId; static uint64_t hTs, hLast; static bool hSet;
static size_t hdrContract(const UncompressedEntry *re, char **out, uint64_t last) {
    uint64_t n = vf_range(3, 13, "@hdrLen");
    hId = re->fmtId; hTs = re->timestamp; hLast = last; hStart = *out;
    vf_assert((uint64_t)(gOutEnd - *out) >= 16, "room for the largest header was ensured");
    vf_bytes(*out, n, "@hdr");
    *out += n; hEnd = *out; hSet = true;
    return n;
}
static const UncompressedEntry *gEntry() { return reinterpret_cast<const UncompressedEntry*>(gIn + gFrom); }
// input precondition, instantiated at the current message boundary
static void gPre() {
    vf_assume(gFrom <= gN);
    if (gFrom < gN) {
        vf_assume(gN - gFrom >= sizeof(UncompressedEntry));
        vf_assume(gEntry()->entrySize >= sizeof(UncompressedEntry));
        vf_assume(gEntry()->entrySize <= gN - gFrom);
#ifdef PREPROCESSOR_NANOLOG
        vf_assume(gEntry()->fmtId < 2);              // only generated log sites write into the buffer
#endif
    }
}
static void gCompress(int nn, const ParamType *pt, char **in, char **out) {
    const UncompressedEntry *e = gEntry();
    vf_assert(*in == gIn + gFrom + sizeof(UncompressedEntry), "arguments of the next message, in order, none skipped or repeated");
    vf_assert(nn == (int)(7 + e->fmtId), "message compressed with its own log site's function");
    // the header lies between gOut and *out and decodes to this message
    uint64_t hl = *out - gOut;
    vf_assert(hl >= 3 && hl <= 13, "header written where the previous message ended");
    if (hSet) {
        vf_assert(hStart == gOut && hEnd == *out, "header sits where the previous message ended");
        vf_assert(hLast == gLast, "timestamps are chained to the previous message of the extent");
        vf_assert(hId == e->fmtId && hTs == e->timestamp, "header carries this message's id and timestamp");
        hSet = false;
    } else {
    const char *q = gOut; uint32_t id; uint64_t ts;
    bool ok = decompressLogHeader(&q, gLast, id, ts);
    vf_assert(ok && q == *out, "header decodes");
    vf_assert(id == e->fmtId && ts == e->timestamp, "header carries this message's id and timestamp");
    }
    // any result allowed by the size contract
    uint64_t argBytes = e->entrySize - sizeof(UncompressedEntry);
    uint64_t n = vf_range(0, 1 << 22, "compressedLen");
    vf_assume(n <= 2 * argBytes + 3);
    vf_assume(argBytes > 0 || n == 0);
    vf_assert(n <= (uint64_t)(gOutEnd - *out), "room for the largest compressed form was ensured");
    vf_bytes(*out, n, "compressed");
    *out += n;
    *in += argBytes;
    gFrom += e->entrySize; gLast = e->timestamp; gOut = *out; gCount++;
    if (gLimit && gCount >= gLimit) vf_assume(gFrom == gN);
    gPre();
}

#ifdef PREPROCESSOR_NANOLOG
// the tables the preprocessor generates: two log sites
template<int I> static ssize_t ppCompress(UncompressedEntry *re, char *out) { char *in = (char*)re + sizeof(UncompressedEntry), *o = out; gCompress(7 + I, nullptr, &in, &o); return o - out; }
namespace GeneratedFunctions {
    size_t numLogIds = 2;
    struct LogMetadata logId2Metadata[2] = {{"a", "f.cc", 1, NanoLog::NOTICE}, {"b", "f.cc", 2, NanoLog::NOTICE}};
    ssize_t (*compressFnArray[2])(UncompressedEntry*, char*) = {ppCompress<0>, ppCompress<1>};
}
#define DICT
#else
#define DICT dict,
#endif
static void encodeContract(uint64_t limit, uint32_t bufferId) {
    gLimit = limit; hSet = false;
    vf_replace("NanoLogInternal::Log::compressLogHeader(", (void*)hdrContract);
    gCap = vf_range(0, 1 << 20, "capacity"); gN = vf_range(0, 1 << 20, "nbytes");
    gIn = (char*)malloc(gN); vf_bytes(gIn, gN, "messages");
    gOut0 = (char*)malloc(gCap); gOutEnd = gOut0 + gCap;
    Encoder enc(gOut0, gCap, true);
    uint64_t pre = vf_range(0, 1 << 20, "alreadyEncoded"); vf_assume(pre <= gCap);
    enc.writePos = gOut0 + pre;
    bool np = vf_bool("newPass");
    std::vector<StaticLogInfo> dict; unsigned ND = 2;
    for (unsigned i = 0; i < ND; i++) dict.push_back(StaticLogInfo(gCompress, "f", i, 1, "x", 0, 7 + i, nullptr));
    uint64_t ev = vf_u64("events"), ev0 = ev;
    gFrom = gLast = gCount = 0;
    // where the first message must start
    uint64_t hdr = bufferId < 16 ? 5 : bufferId < 256 ? 6 : bufferId < 65536 ? 7 : bufferId < (1 << 24) ? 8 : 9;
    gOut = gOut0 + pre + hdr;
    gPre();
    long r = enc.encodeLogMsgs(gIn, gN, bufferId, np, DICT &ev);
    vf_loop_cut(nullptr);
    vf_assert(r == (long)gFrom, "bytes reported consumed are exactly the whole messages encoded");
    vf_assert(ev == ev0 + gCount, "exactly the encoded messages are counted");
    uint64_t total = enc.getEncodedBytes();
    vf_assert(total <= gCap, "encoded bytes fit the buffer");
    if (total == pre) {
        vf_assert(r == 0, "nothing consumed when not even the extent header fits");
        vf_assert(gCap - pre < 9, "an extent is only refused when its header may not fit");
        vf_cover("end"); return;
    }
    vf_assert(total == (uint64_t)(gOut - gOut0), "output ends with the last whole message");
    BufferExtent be; memcpy(&be, gOut0 + pre, sizeof be);
    vf_assert(be.length == total - pre, "extent length covers exactly its header and messages");
    vf_assert(be.entryType == EntryType::BUFFER_EXTENT && be.wrapAround == np, "extent header intact");
    vf_assert(be.isShort ? be.threadIdOrPackNibble == bufferId : bufferId >= 16, "buffer id intact");
    // progress: stopped early only for lack of space or of dictionary
    if (gFrom < gN) {
        const UncompressedEntry *e = gEntry();
        vf_assert(e->fmtId >= ND || 2ull * e->entrySize + sizeof(UncompressedEntry) > gCap - total, "stops early only for lack of space or an unknown log site");
    }
    // swap
    char *nb = (char*)malloc(64); char *ob = nullptr; size_t ol = 0, os = 0;
    enc.swapBuffer(nb, 64, &ob, &ol, &os);
    vf_assert(ob == gOut0 && ol == total && os == gCap, "swapBuffer hands back the encoded buffer");
    vf_assert(enc.getEncodedBytes() == 0, "the new buffer starts empty");
    long r2 = enc.encodeLogMsgs(gIn, 0, 1, false, DICT nullptr);
    vf_assert(r2 == 0 && enc.getEncodedBytes() == 5, "the new buffer is usable");
    memcpy(&be, gOut0 + pre, sizeof be);
    vf_assert(be.length == total - pre, "the old buffer is left alone");
    vf_cover("end");
}
// any number of messages: the loop is cut with an inferred, checked invariant
static void cutLoop() { vf_loop_cut("NanoLogInternal::Log::Encoder::encodeLogMsgs"); vf_loop_pre(gPre); }
extern "C" void prove_encode_msgs_any_short() { cutLoop(); encodeContract(0, 3); }
extern "C" void prove_encode_msgs_any_long() { cutLoop(); encodeContract(0, 0x12345678); }
// up to two messages, loop unrolled (concrete counterexamples)
extern "C" void prove_encode_msgs_2() { encodeContract(2, 7); }
