// Contracts for the decoder's drivers: decompressTo, internalDecompressUnordered,
// getNextLogStatement and open (P09).
//
// The drivers run against the contracts of their callees: peekEntryType and readBufferExtent
// (P02), the dictionary readers (P03), decompressNextLogStatement (P08).  The file is any
// sequence of entries, of any length, cut off anywhere; the loops are decided by closure.
//
// Order: timestamps are compared, never computed with, so it suffices to know for one arbitrary
// threshold which messages are below it (class 0) and which are not (class 1).  Comparisons
// within a class come out either way.  If for every threshold no message below it follows one
// above it, the output is sorted.  A fragment holds messages of class 0 (any number, or none)
// followed by messages of class 1 (any number, or none): within an extent timestamps do not
// decrease (P04).
#include "vf_log_shim.h"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;
typedef Decoder::BufferFragment BF;
static const int POOL = 8;
enum { NEXT, EXTENT, CHECK, DICT, PAD, END };
struct Frag { BF bf; bool c0, c1; };            // a fragment and what is left in it
static struct Ghost {
    uint8_t used, left;                         // fragments in use; those with messages left
    uint8_t cur, inStage, sinceOne; bool one, bad, multi;
} G;
static Decoder *D;
static int cPer, cUsed; static bool cOnce, cOrder, cCheck, cOut; static uint64_t cTime;
static void memo() {
    D->logMsgsPrinted = 0; D->numBufferFragmentsRead = D->numCheckpointsRead = 0; vfErrs = 0;
    vf_memo();
}
static Frag &of(const BF *bf) { return *(Frag*)bf; }
static Frag *fresh() { Frag *f = (Frag*)malloc(sizeof(Frag)); f->c0 = f->c1 = false; f->bf.hasMoreLogs = false; f->bf.readPos = f->bf.endOfBuffer = nullptr; return f; }
static bool pending() { return G.left; }
static EntryType peekC(FILE *) {
    if (G.cur == NEXT) {
        memo();
        static const uint8_t kinds[] = {EXTENT, END, PAD, DICT, CHECK};
        G.cur = kinds[vf_choose(cCheck ? 5 : 4, "entry")];
    }
    switch (G.cur) {
    case EXTENT: return EntryType::BUFFER_EXTENT;
    case CHECK: return EntryType::CHECKPOINT;
    case DICT: return EntryType::LOG_MSGS_OR_DIC;
    case END: vfIn.eof = true;
    }
    return EntryType::INVALID;
}
static int fgetcC(FILE *) { vf_assert(G.cur == PAD || G.cur == END, "only padding is skipped"); if (G.cur == END) return -1; G.cur = vf_choose(2, "morePadding") ? PAD : NEXT; if (G.cur == PAD) memo(); return 0; }
static bool cutOff() {
    if (vf_choose(2, "corrupt")) { G.bad = true; G.cur = NEXT; return true; }
    if (!vf_choose(2, "cutOff")) return false; vfIn.eof = true; G.cur = END; return true;
}
static bool extentC(BF *bf, FILE *, bool *wrap) {
    vf_assert(G.cur == EXTENT, "an extent is read where one is");
    Frag &f = of(bf);
    vf_assert(!f.c0 && !f.c1, "an extent is read into a free fragment");
    if (cutOff()) { bf->hasMoreLogs = false; return false; }
    G.cur = NEXT;
    bool marker = G.inStage + 1 >= cPer || G.used > cUsed || (cOnce && G.multi && !G.inStage) || vf_choose(2, "marker");
    if (cOnce && !marker) G.multi = true;      // the marked extent is the last of its stage
    unsigned k = vf_choose(4, "messages");                              // none; class 1; class 0; both
    if (cOrder && G.sinceOne > 3 && k > 1) k = 1;                       // three stages later everything is later
    f.c0 = k & 2; f.c1 = k & 1; if (k) ++G.left;
    if (f.c1 && !G.sinceOne) G.sinceOne = 1;
    // distance from the first stage with a message of class 1: 1, 2, 3 = the stage itself and the two after it
    G.inStage = marker ? 0 : G.inStage + 1;
    if (marker && G.sinceOne && G.sinceOne < 4) ++G.sinceOne;
    if (wrap) *wrap = marker;
    bf->hasMoreLogs = f.c0 || f.c1;
    return true;
}
static bool printC(BF *bf, FILE *out, uint64_t &n, LogMessage &, const Checkpoint &cp, std::vector<void*> &meta, long, void (*)(const char*, ...)) {
    Frag &f = of(bf);
    vf_assert(&n == &D->logMsgsPrinted && &cp == &D->checkpoint && &meta == &D->fmtId2metadata, "messages are counted, dated and described by this file");
    vf_assert(out == (cOut ? vfOutFd() : nullptr), "messages go where they were asked for");
    if (!f.c0 && !f.c1) { bf->hasMoreLogs = false; return false; }
    ++n;
    bool one = !f.c0;
    if (cOrder) vf_assert(one || !G.one, "messages come out in the order of their timestamps");
    if (one) G.one = true;
    if (!vf_choose(2, "moreLikeIt")) { if (f.c0) f.c0 = false; else f.c1 = false; }
    bf->hasMoreLogs = f.c0 || f.c1;
    if (!bf->hasMoreLogs) --G.left;
    memo();
    return true;
}
static bool dictC(Decoder *, FILE *, bool flush) {
    vf_assert(G.cur == CHECK, "a checkpoint is read where one is");
    vf_assert(flush, "a new execution starts with its own dictionary");
    vf_assert(!pending(), "messages are printed with the dictionary they were logged with");
    if (cutOff()) return false;
    G.cur = NEXT; G.one = false; G.sinceOne = 0; G.inStage = 0;
    return true;
}
static bool dictPieceC(Decoder *, FILE *) {
    vf_assert(G.cur == DICT, "a piece of dictionary is read where one is");
    if (cutOff()) return false;
    G.cur = NEXT; return true;
}
static BF *allocC(Decoder *) {
    vf_assert(G.used < POOL, "no more fragments are in use than extents in three stages");
    ++G.used; return &fresh()->bf;
}
static void freeC(Decoder *, BF *bf) {
    Frag &f = of(bf);
    vf_assert(!f.c0 && !f.c1, "a fragment is released after its last message");
    --G.used; free(bf);                         // from here on any use of it is a failure
}
// The standard vector, whose unused slots are cleared: what they held is not part of the state.
typedef std::vector<BF*> V;
static void clearC(V *v) { for (BF **p = v->_M_impl._M_start; p != v->_M_impl._M_end_of_storage; ++p) *p = nullptr; v->_M_impl._M_finish = v->_M_impl._M_start; }
static void popC(V *v) { vf_assert(v->_M_impl._M_start != v->_M_impl._M_finish, "something to remove"); *--v->_M_impl._M_finish = nullptr; }
static V &assignC(V *v, const V &o) { if (v != &o) { clearC(v); for (BF *const *p = o._M_impl._M_start; p != o._M_impl._M_finish; ++p) v->push_back(*p); } return *v; }
static size_t lenC(const V *v, size_t n, const char *) { size_t c = v->_M_impl._M_end_of_storage - v->_M_impl._M_start; return c < 4 ? 4 : 2 * c; }
static bool later(const BF *a, const BF *b) {
    Frag &x = of(a), &y = of(b);
    vf_assert((x.c0 || x.c1) && (y.c0 || y.c1), "only messages still to come are compared");
    if (x.c0 != y.c0) return y.c0;
    memo();
    return vf_choose(2, "later");
}
static uint64_t timeC(const BF *a) {
    Frag &x = of(a);
    vf_assert(x.c0 || x.c1, "only a message still to come has a time");
    memo();
    uint64_t t = cTime ? cTime : 2;
    // the last before the threshold or the first; the first from it on or the last
    return vf_choose(2, "time") ? (x.c0 ? t - 1 : t) : x.c0 ? 0 : ~0ull;
}
static void start() {
    PerfUtils::Cycles::cyclesPerSec = 1e9;
    vfSetInput("", 0); vfNoRec = true;
    G = Ghost();
    D = new Decoder();
    D->filename = "log"; D->inputFd = vfInFd(); D->good = true;
    vf_replace("NanoLogInternal::Log::peekEntryType(_IO_FILE*", (void*)peekC);
    vf_replace("vf_fgetc(", (void*)fgetcC);
    vf_replace("NanoLogInternal::Log::Decoder::BufferFragment::readBufferExtent(", (void*)extentC);
    vf_replace("NanoLogInternal::Log::Decoder::BufferFragment::decompressNextLogStatement(", (void*)printC);
    vf_replace("NanoLogInternal::Log::Decoder::BufferFragment::getNextLogTimestamp(", (void*)timeC);
    if (!cTime) vf_replace("NanoLogInternal::Log::Decoder::compareBufferFragments(", (void*)later);
    vf_replace("NanoLogInternal::Log::Decoder::readDictionary(", (void*)dictC);
    vf_replace("NanoLogInternal::Log::Decoder::readDictionaryFragment(", (void*)dictPieceC);
    vf_replace("NanoLogInternal::Log::Decoder::allocateBufferFragment(", (void*)allocC);
    vf_replace("NanoLogInternal::Log::Decoder::freeBufferFragment(", (void*)freeC);
    #define VEC "std::vector<NanoLogInternal::Log::Decoder::BufferFragment*, std::allocator<NanoLogInternal::Log::Decoder::BufferFragment*> >::"
    vf_replace(VEC "clear(", (void*)clearC);
    vf_replace(VEC "pop_back(", (void*)popC);
    vf_replace(VEC "operator=(std::vector<NanoLogInternal::Log::Decoder::BufferFragment*, std::allocator<NanoLogInternal::Log::Decoder::BufferFragment*> > const&", (void*)assignC);
    vf_replace(VEC "_M_check_len(", (void*)lenC);
    vf_compact();
}
static void finish() {
    vf_assert(!pending(), "every message of every complete extent is printed");
    vf_assert(G.bad || (G.cur == END && vfIn.eof), "the file is read to its end or the first error");
    vf_cover("end");
}
static void ordered() {
    cOut = true; start();
    int64_t n = D->decompressTo(vfOutFd());
    vf_assert((uint64_t)n == D->logMsgsPrinted, "the number of messages is returned");
    finish();
}
// thresholds at which a comparison by fewer bits, by sign or by difference goes wrong
extern "C" void prove_times() {
    static const uint64_t at[] = {2, 1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32, (1ull << 53) + 1, 1ull << 63, ~0ull};
    cTime = at[vf_choose(sizeof at / sizeof *at, "threshold")]; cPer = 1; cOrder = true; ordered();
}
extern "C" void prove_times_2() { cTime = 1ull << 32; cPer = 2; cUsed = 6; cOnce = cOrder = true; ordered(); }
// compareBufferFragments: by the whole of both timestamps
extern "C" void prove_compare() {
    vfSetInput("", 0);
    D = new Decoder();
    BF *a = D->allocateBufferFragment(), *b = D->allocateBufferFragment();
    for (BF *f : {a, b}) { f->nextLogTimestamp = vf_u64("timestamp"); f->validBytes = 1; f->readPos = f->endOfBuffer = f->storage; f->hasMoreLogs = true; }
    vf_assert(a->getNextLogTimestamp() == a->nextLogTimestamp, "a fragment's time is that of its next message");
    bool r = Decoder::compareBufferFragments(a, b);
    vf_assert(r == (a->nextLogTimestamp > b->nextLogTimestamp), "fragments are ordered by their next messages' times");
    vf_cover("end");
}
extern "C" void prove_order_1() { cPer = 1; cOrder = true; ordered(); }
extern "C" void prove_order_once_2() { cPer = 2; cUsed = 6; cOnce = cOrder = true; ordered(); }
extern "C" void prove_order_once_3() { cPer = 3; cUsed = 6; cOnce = cOrder = true; ordered(); }
extern "C" void prove_order_2() { cPer = 2; cUsed = 2; cOrder = true; ordered(); }
extern "C" void prove_order_3() { cPer = 2; cUsed = 3; cOrder = true; ordered(); }
extern "C" void prove_order_6() { cPer = 2; cUsed = 6; cOrder = true; ordered(); }
extern "C" void prove_sections() { cPer = 1; cOrder = true; cCheck = true; ordered(); }
extern "C" void prove_sections_2() { cPer = 2; cUsed = 1; cOrder = true; cCheck = true; ordered(); }
extern "C" void prove_unordered() {
    cPer = 1; cCheck = true; cOut = vf_choose(2, "out"); start();
    int64_t n = D->decompressUnordered(cOut ? vfOutFd() : nullptr);
    vf_assert((uint64_t)n == D->logMsgsPrinted || !D->good, "the number of messages is returned");
    finish();
}
extern "C" void prove_iterate() {
    cPer = 1; cCheck = true; cOut = vf_choose(2, "out"); start();
    D->bufferFragment = &fresh()->bf; G.used = 1;
    LogMessage msg;
    while (true) {
        uint64_t before = D->logMsgsPrinted;
        bool r = D->getNextLogStatement(msg, cOut ? vfOutFd() : nullptr);
        if (!r) break;
        memo();
    }
    finish();
    for (int i = 0; i < 2; i++) vf_assert(!D->getNextLogStatement(msg, cOut ? vfOutFd() : nullptr), "there is nothing after the end");
}

// open: nothing of the file before is left, and the file is read from its start
static struct { bool isOpen[2]; int now; bool dict; } O;
static FILE *fd(int i) { return (FILE*)((char*)vfInFd() + i); }
static FILE *fopenC(const char *n, const char *) {
    vf_assert(n[0] == 'n' && n[1] == 0, "the file asked for is opened");
    if (!vf_choose(2, "exists")) return nullptr;
    O.isOpen[1] = true; O.now = 1; return fd(1);
}
static int fcloseC(FILE *f) { int i = f == fd(1); vf_assert(f && O.isOpen[i], "a file is closed once"); O.isOpen[i] = false; return 0; }
static bool openDictC(Decoder *, FILE *f, bool flush) {
    vf_assert(f == fd(1) && O.isOpen[1], "the dictionary of the file asked for is read");
    vf_assert(flush, "a new file starts with its own dictionary");
    return O.dict = vf_choose(2, "dictionary");
}
extern "C" void prove_open() {
    start();
    vf_replace("vf_fopen(", (void*)fopenC); vf_replace("vf_fclose(", (void*)fcloseC);
    vf_replace("NanoLogInternal::Log::Decoder::readDictionary(", (void*)openDictC);
    Frag *old = fresh(); D->bufferFragment = &old->bf;
    bool had = vf_choose(2, "openBefore");
    D->filename = ""; D->inputFd = nullptr; D->good = false; D->logMsgsPrinted = D->numBufferFragmentsRead = D->numCheckpointsRead = 0;
    if (had) {
        D->filename = "log"; D->inputFd = fd(0); O.isOpen[0] = true; D->good = vf_choose(2, "good"); D->logMsgsPrinted = 5; D->numBufferFragmentsRead = 6;
        old->bf.hasMoreLogs = vf_choose(2, "messagesLeft");
    }
    bool r = D->open("n");
    vf_assert(!O.isOpen[0], "the file before is closed");
    vf_assert(r == O.isOpen[1] && r == O.dict, "open succeeds if the file and its dictionary can be read");
    vf_assert(!D->bufferFragment->hasNext(), "nothing of the file before is left");
    if (r) {
        vf_assert(D->inputFd == fd(1) && D->good && D->filename == "n", "the file asked for is the one read");
        vf_assert(D->logMsgsPrinted == 0 && D->numBufferFragmentsRead == 0 && D->numCheckpointsRead == 1, "counting starts over");
    } else {
        LogMessage msg; cOut = true;
        vf_assert(!D->getNextLogStatement(msg, vfOutFd()) && D->decompressTo(vfOutFd()) == -1, "a file that cannot be read has no messages");
    }
    D->~Decoder();
    vf_assert(!O.isOpen[1] && !O.isOpen[0], "no file stays open");
    vf_cover("end");
}
