// Contracts for the background thread (compressionThreadMain) and for sync, waitForAIO, setLogFile (P10).
//
// compressionThreadMain runs against the contracts of its callees: the staging buffers' peek,
// consume and checkCanDelete (P06), the encoder (P02-P04), asynchronous I/O, locks.  Ghost state
// follows every message from commit to completed write.  All other threads act at every point
// where this one can observe them.  The loop is proved by closure: every state reached at a lock
// or a peek is recorded, a state seen before ends its path; the recorded set is then an invariant
// that holds for any number of iterations, messages, threads coming and going, and syncs.
#include "vf_rt_shim.h"
#include "RuntimeLogger.cc"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
typedef Log::Encoder Enc;
static RuntimeLogger &RL() { return RuntimeLogger::nanoLogSingleton; }
static const uint64_t U = 300 << 10;             // size of a message: two in a buffer exceed the release threshold
enum { NONE, ALIVE, DEAD };
struct Buf { SB *sb; uint8_t st, q, due, enc, cons, pk, site[2]; };
// q committed and not consumed, the first due of them before the last sync; enc of them encoded;
// pk, cons: messages returned by the last peek, consumed since
static struct Ghost {
    Buf g[3];
    char *outBuf, *infBuf; struct aiocb *cb;
    bool bytes, handed, outDue, infDue, syncReq, exiting, bufLock, condLock, regLock, full;
    bool wrapped, maybeWrapped, quiet; int8_t lastPos; uint8_t inflight, dictN, rounds, told, scan;
} G;
static int cK, cQ; static bool cFull, cReg, cExit, cSync, cEintr, cLive, cBirth, cDeath, cWrap;
static StaticLogInfo *sites[2];
#ifdef PREPROCESSOR_NANOLOG
static const bool cPP = true;                    // log sites are known at compile time
#else
static const bool cPP = false;
#endif
static bool pick(const char *n) { return vf_choose(2, n); }
// ---- ghost bookkeeping
static Buf *slotOf(const SB *sb) { for (int k = 0; k < cK; k++) if (G.g[k].st && G.g[k].sb == sb) return &G.g[k]; return nullptr; }
static void *room[3];                            // memory of the buffers, one place each
static void reset(Buf &b) { b = Buf(); }
static void deleteC(void *p) {
    for (int k = 0; k < cK; k++) if (p == room[k]) {
        vf_assert(G.g[k].st == DEAD && G.g[k].q == 0, "a buffer is freed only when its thread is gone and its messages were taken");
        reset(G.g[k]); G.maybeWrapped = true; G.wrapped = false; G.lastPos = -1; return;
    }
    free(p);
}
static void audit() {
    auto &v = RL().threadBuffers;
    for (int k = 0; k < cK; k++) {
        Buf &b = G.g[k]; if (!b.st) continue;
        int n = 0; for (size_t i = 0; i < v.size(); i++) n += v[i] == b.sb;
        vf_assert(n <= 1, "no buffer is listed twice");
        if (n == 0) {
            vf_assert(false, "a buffer is dropped from the list only when it is freed");
        }
    }
    size_t live = 0; for (int k = 0; k < cK; k++) live += G.g[k].st != NONE;
    vf_assert(v.size() == live, "the list holds the threads' buffers and nothing else");
}
static void noDue() {
    bool due = G.outDue || G.infDue; for (int k = 0; k < cK; k++) if (G.g[k].due) due = true;
    vf_assert(!due, "a sync completes only when everything logged before it was written completely");
}
static void checkSync() { if (G.syncReq && RL().syncStatus == RuntimeLogger::SYNC_COMPLETED) { noDue(); G.syncReq = false; if (!cExit && !cLive) vf_cover("end"); } }
static void memo();
static void scrub() { auto &v = RL().threadBuffers; for (size_t i = v.size(); i < v.capacity(); i++) v.data()[i] = nullptr; }   // left-overs beyond the end
// ---- what other threads do
static void commit(Buf &b) {
    if (b.st != ALIVE || b.q >= cQ || G.quiet) return;
    if (!pick("commit")) return;
    b.site[b.q++] = cReg ? RL().invocationSites.size() - 1 : 0;
    if (b.q < cQ && pick("commit")) b.site[b.q++] = 0;
}
static void mayRegister() { if (cReg && !G.quiet && RL().invocationSites.size() < 2 && pick("register")) RL().invocationSites.push_back(*sites[1]); }
static void birth() {
    if (!cBirth || G.quiet) return;
    for (int k = 0; k < cK; k++) if (!G.g[k].st) {
        if (!pick("newThread")) return;
        G.g[k].sb = (SB*)room[k]; G.g[k].st = ALIVE; RL().threadBuffers.push_back(G.g[k].sb);
    }
}
static void maySync() {
    if (!cSync || G.quiet || G.exiting || !pick("sync")) return;
    for (int k = 0; k < cK; k++) commit(G.g[k]);
    RL().syncStatus = RuntimeLogger::SYNC_REQUESTED; G.syncReq = true; G.told = 0;
    for (int k = 0; k < cK; k++) G.g[k].due = G.g[k].q;
    G.outDue = G.bytes; G.infDue = G.inflight;
}
static void mayExit() {
    if (!cExit || G.exiting || G.syncReq || G.quiet || !pick("exit")) return;
    RL().compressionThreadShouldExit = true; G.exiting = true;
}
static void hook(int pt, void *o) {
    if (pt == VF_LOCK && o == &RL().bufferMutex) {
        G.bufLock = true; G.scan = 0; audit(); birth(); mayRegister();
        if (cLive && !G.quiet && pick("quiet")) G.quiet = true;
        if (G.quiet) {
            if (++G.rounds >= 8) {
                for (int k = 0; k < cK; k++) vf_assert(G.g[k].q == 0, "every committed message is taken eventually");
                vf_assert(!G.bytes && !G.inflight, "everything taken is written eventually");
                vf_assert(!G.syncReq, "every sync completes eventually");
                vf_assert(G.told || !cSync, "the waiting thread is told");
                for (int k = 0; k < cK; k++) vf_assert(G.g[k].st != DEAD, "buffers of finished threads are released eventually");
                vf_cover("end"); vf_end();
            }
        }
        memo();
    }
    if (pt == VF_UNLOCK && o == &RL().bufferMutex) { scrub(); G.bufLock = false; }
    if (pt == VF_LOCK && o == &RL().registrationMutex) { G.regLock = true; mayRegister(); }
    if (pt == VF_UNLOCK && o == &RL().registrationMutex) G.regLock = false;
    if (pt == VF_LOCK && o == &RL().condMutex) { G.condLock = true; maySync(); mayExit(); memo(); }
    if (pt == VF_UNLOCK && o == &RL().condMutex) { checkSync(); G.condLock = false; }
    if (pt == VF_CV_NOTIFY && o == &RL().hintSyncCompleted && RL().syncStatus == RuntimeLogger::SYNC_COMPLETED) G.told = 1;
    if (pt == VF_AIO_ERROR) {
        vf_assert(o == G.cb, "the status of the write that was started is asked for");
        if (G.inflight == 1 && (G.quiet || pick("written"))) G.inflight = 2;
        vfAioState = G.inflight == 1 ? EINPROGRESS : 0;
    }
    if (pt == VF_AIO_SUSPEND) {
        vfSuspendRet = 0;
        if (G.inflight == 1) { if (cEintr && !G.quiet && pick("interrupted")) { memo(); vfSuspendRet = -1; errno = EINTR; } else G.inflight = 2; }
    }
    if (pt == VF_AIO_RETURN) {
        vf_assert(o == G.cb && G.inflight == 2, "the result of a write is taken once, after it completed");
        G.inflight = 0; G.infDue = false; G.infBuf = nullptr; vfAioRet = 1000; maySync(); mayExit(); if (!cSync) vf_cover("end");
    }
    if (pt == VF_AIO_WRITE) {
        struct aiocb *cb = (struct aiocb*)o;
        vf_assert(G.inflight == 0, "one write at a time, each after the previous one completed");
        vf_assert(cb->aio_fildes == RL().outputFd, "output goes to the current log file");
        vf_assert(cb->aio_buf == G.outBuf && cb->aio_nbytes == 1000 && G.bytes && !G.handed, "exactly the encoded bytes are written, once");
        G.cb = cb; G.inflight = 1; G.infBuf = G.outBuf; G.infDue = G.outDue; G.outDue = false; G.handed = true;
    }
}
static void guarded(void *, uint64_t, int) { vf_assert(G.bufLock, "the list of buffers is touched only under its lock"); }
static void syncState(void *, uint64_t, int kind) { if ((kind & 3) != 0) vf_assert(G.condLock, "the state of a sync changes only under its lock"); }
// ---- callee contracts: staging buffer (P06)
static char *peekC(SB *sb, uint64_t *n) {
    Buf *b = slotOf(sb);
    audit();
    if (G.quiet) vf_assert(++G.scan <= 8, "a scan of idle buffers ends");
    vf_assert(b != nullptr && b->st, "only listed buffers are scanned");
    vf_assert(b->enc == 0, "whatever was encoded has been released before the buffer is read again");
    auto &v = RL().threadBuffers; int pos = 0; while (v[pos] != sb) ++pos;
    if (G.lastPos >= 0 && (pos < G.lastPos || (pos == G.lastPos && v.size() == 1 && !G.full))) G.wrapped = true;
    if (G.lastPos >= 0 && (pos < G.lastPos || (pos == G.lastPos && !G.full))) G.maybeWrapped = true;
    G.lastPos = pos; G.full = false;
    mayRegister(); commit(*b); memo();
    b->cons = 0; b->pk = b->q == 2 ? 1 + vf_choose(2, "peek") : b->q;
    *n = b->pk * U; return sb->storage;
}
static void consumeC(SB *sb, uint64_t n) {
    Buf *b = slotOf(sb);
    vf_assert(b != nullptr && n % U == 0 && n / U <= b->enc, "only what was encoded is released");
    for (uint64_t m = n / U; m; --m) { b->enc--; b->q--; b->cons++; if (b->due) b->due--; b->site[0] = b->site[1]; b->site[1] = 0; }
}
static bool canDeleteC(SB *sb) {
    Buf *b = slotOf(sb);
    vf_assert(b != nullptr, "only listed buffers are examined");
    if (b->st == ALIVE && !G.quiet && cDeath && pick("threadEnds")) { commit(*b); b->st = DEAD; }
    return b->st == DEAD && b->q == 0;
}
// ---- callee contracts: encoder (P02-P04)
static void ctorC(Enc *e, char *buf, size_t size, bool skip, bool force) {
    vf_assert(buf != G.infBuf && size == NanoLogConfig::OUTPUT_BUFFER_SIZE, "the encoder starts with a whole, free buffer");
    vf_assert(!skip && RL().nextInvocationIndexToBePersisted == 0, "a file starts with a checkpoint and a complete dictionary");
    G.outBuf = buf; G.bytes = true; G.dictN = 0; G.handed = false; G.outDue = false;
}
static size_t bytesC(Enc *) { return G.bytes ? 1000 : 0; }
static long encodeC(Enc *e, char *from, uint64_t nbytes, uint32_t id, bool newPass,
#ifndef PREPROCESSOR_NANOLOG
    std::vector<StaticLogInfo> &dict,
#endif
    uint64_t *ev) {
    Buf *b = nullptr; for (int k = 0; k < cK; k++) if (G.g[k].st && from >= G.g[k].sb->storage && from < G.g[k].sb->storage + NanoLogConfig::STAGING_BUFFER_SIZE) b = &G.g[k];
    vf_assert(b != nullptr, "messages come from a listed buffer");
    vf_assert(id == b->sb->getId(), "messages carry their buffer's id");
    vf_assert(from == b->sb->storage + (b->cons + b->enc) * U, "messages are encoded in order, none skipped or repeated");
    vf_assert((uint64_t)(b->cons + b->enc) * U + nbytes <= b->pk * U, "only committed bytes are read");
    vf_assert(!G.handed && G.outBuf != G.infBuf, "a buffer being written is left alone");
#ifndef PREPROCESSOR_NANOLOG
    vf_assert(dict.size() == G.dictN, "messages are encoded with the dictionary in the file");
    for (int i = 0; i < G.dictN; i++) vf_assert(dict[i].formatString == sites[i]->formatString && dict[i].compressionFunction == sites[i]->compressionFunction, "each id has its own description");
#endif
    bool had = G.bytes;
    if (cFull && had && !G.quiet && pick("noHeaderRoom")) { G.full = true; return 0; }
    if (!cWrap) { newPass = false; G.wrapped = false; }
    if (G.wrapped) vf_assert(newPass, "the first extent of a new pass is marked");
    if (!G.maybeWrapped) vf_assert(!newPass, "only the first extent of a new pass is marked");
    G.wrapped = G.maybeWrapped = false; G.bytes = true;
    uint64_t avail = nbytes / U, known = 0;
    while (known < avail && (b->site[b->enc + known] < G.dictN || cPP)) ++known;
    uint64_t lo = cFull && !G.quiet ? (had || !known ? 0 : 1) : known;
    uint64_t k = lo + (known > lo ? vf_choose(known - lo + 1, "encoded") : 0);
    for (uint64_t j = 0; j < k; j++) { if (b->enc < b->due) G.outDue = true; b->enc++; }
    if (!k) { G.full = true; G.maybeWrapped = newPass; }        // an extent without messages: the mark may be repeated
    return k * U;
}
static uint32_t dictC(Enc *e, uint32_t &pos, std::vector<StaticLogInfo> all) {
    vf_assert(G.regLock, "the registry is read under its lock");
    vf_assert(pos == G.dictN && all.size() == RL().invocationSites.size(), "the dictionary continues where it stopped");
    vf_assert(!G.handed && G.outBuf != G.infBuf, "a buffer being written is left alone");
    if (cFull && G.bytes && !G.quiet && pick("noDictRoom")) return 0;
    uint32_t n = all.size() - pos; if (n > 1) n = 1 + vf_choose(n, "entries");
    pos += n; G.dictN = pos; G.bytes = true; return n;
}
static void swapC(Enc *e, char *in, size_t n, char **ob, size_t *ol, size_t *os) {
    vf_assert(!G.bytes || G.handed, "encoded bytes are not dropped");
    vf_assert(in != G.infBuf && n == NanoLogConfig::OUTPUT_BUFFER_SIZE && (in == RL().outputDoubleBuffer || in == RL().compressingBuffer), "encoding goes on in the free buffer");
    if (ob) *ob = G.outBuf; if (ol) *ol = G.bytes ? 1000 : 0; if (os) *os = NanoLogConfig::OUTPUT_BUFFER_SIZE;
    G.outBuf = in; G.bytes = false; G.handed = false;
}
static void replaceCallees() {
    vf_replace("operator delete(void*", (void*)deleteC);
    vf_replace("NanoLogInternal::RuntimeLogger::StagingBuffer::peek(", (void*)peekC);
    vf_replace("NanoLogInternal::RuntimeLogger::StagingBuffer::consume(", (void*)consumeC);
    vf_replace("NanoLogInternal::RuntimeLogger::StagingBuffer::checkCanDelete(", (void*)canDeleteC);
    vf_replace("NanoLogInternal::Log::Encoder::Encoder(", (void*)ctorC);
    vf_replace("NanoLogInternal::Log::Encoder::getEncodedBytes(", (void*)bytesC);
    vf_replace("NanoLogInternal::Log::Encoder::encodeLogMsgs(", (void*)encodeC);
    vf_replace("NanoLogInternal::Log::Encoder::encodeNewDictionaryEntries(", (void*)dictC);
    vf_replace("NanoLogInternal::Log::Encoder::swapBuffer(", (void*)swapC);
}
static void memo() {
    RuntimeLogger &r = RL();                      // statistics do not influence the thread
    r.cyclesActive = r.cyclesCompressing = r.cyclesScanningAndCompressing = r.cyclesDiskIO_upperBound = r.cyclesAtLastAIOStart = 0;
    r.totalBytesRead = r.totalBytesWritten = r.padBytesWritten = r.logsProcessed = 0; r.numAioWritesCompleted = 0;
    r.workAdded.notified = r.hintSyncCompleted.notified = 0;
    for (auto &x : r.stagingBufferPeekDist) x = 0;
    vfAioState = vfSuspendRet = 0; vfAioRet = 0; errno = 0;
    for (Buf &b : G.g) { b.cons = b.pk = 0; if (!cReg) b.site[0] = b.site[1] = 0; }
    if (!cLive) G.told = 0;
    if (!cWrap) { G.wrapped = G.maybeWrapped = false; G.lastPos = -1; }
    if (r.compressingBuffer > r.outputDoubleBuffer) {            // the two output buffers are interchangeable
        char *a = r.compressingBuffer, *b = r.outputDoubleBuffer;
        auto flip = [a, b](char *p) { return p == a ? b : p == b ? a : p; };
        r.compressingBuffer = b; r.outputDoubleBuffer = a; G.outBuf = flip(G.outBuf); G.infBuf = flip(G.infBuf);
        r.aioCb.aio_buf = flip((char*)r.aioCb.aio_buf);
    }
    if (G.bufLock) scrub();
    vf_memo();
}
static void fnC(int, const ParamType*, char**, char**) {}
static void fnD(int, const ParamType*, char**, char**) {}
static void bg() {
    PerfUtils::Cycles::cyclesPerSec = 1e9; vf_tsc_value = 5000;
    new (&RL()) RuntimeLogger();
    RuntimeLogger::stagingBuffer = nullptr;
    G = Ghost(); G.lastPos = -1;
    sites[0] = new StaticLogInfo(fnC, "f.cc", 1, 1, "a", 0, 0, nullptr);
    sites[1] = new StaticLogInfo(fnD, "f.cc", 2, 1, "b", 0, 0, nullptr);
    RL().invocationSites.reserve(2); RL().invocationSites.push_back(*sites[0]);
    RL().threadBuffers.reserve(4);
    for (int k = 0; k < cK; k++) new (room[k] = malloc(sizeof(SB))) SB(k + 1);
    if (!cBirth) for (int k = 0; k < cK; k++) { G.g[k].sb = (SB*)room[k]; G.g[k].st = ALIVE; RL().threadBuffers.push_back(G.g[k].sb); }
    replaceCallees();
    vf_compact();
    vfRtHook = hook;
    vf_share(&RL().threadBuffers, sizeof RL().threadBuffers, guarded);
    vf_share(&RL().syncStatus, sizeof RL().syncStatus, syncState);
    mayExit();
    RL().compressionThreadMain();
    vf_unshare(); vfRtHook = nullptr;
    vf_assert(G.exiting, "the thread runs until told to stop");
    vf_assert(!G.bytes && !G.inflight, "the thread stops only when everything it took was written completely");
    for (int k = 0; k < cK; k++) vf_assert(G.g[k].enc == 0, "nothing is left half processed");
    vf_assert(!G.bufLock && !G.condLock && !G.regLock, "no lock is left held");
    vf_cover("end");
}
extern "C" void prove_bg_sync() { cK = 2; cQ = 1; cSync = cBirth = cDeath = true; bg(); }
extern "C" void prove_bg_sync_births() { cK = 3; cQ = 1; cSync = cBirth = true; bg(); }
extern "C" void prove_bg_sync_deaths() { cK = 3; cQ = 1; cSync = cDeath = true; bg(); }
extern "C" void prove_bg_live() { cK = 2; cQ = 1; cSync = cBirth = cDeath = cLive = true; bg(); }
extern "C" void prove_bg_exit() { cK = 2; cQ = 1; cSync = cExit = true; bg(); }
extern "C" void prove_bg_wrap() { cK = 2; cQ = 1; cWrap = cBirth = cDeath = true; bg(); }
extern "C" void prove_bg_wrap_births() { cK = 3; cQ = 1; cWrap = cBirth = true; bg(); }
extern "C" void prove_bg_wrap_deaths() { cK = 3; cQ = 1; cWrap = cDeath = true; bg(); }
extern "C" void prove_bg_full() { cK = 2; cQ = 2; cFull = cEintr = cWrap = true; bg(); }
extern "C" void prove_bg_full_sync() { cK = 2; cQ = 1; cFull = cSync = cEintr = cExit = true; bg(); }
extern "C" void prove_bg_dict() { cK = 1; cQ = 2; cFull = cReg = true; bg(); }
extern "C" void prove_bg_live_deaths() { cK = 2; cQ = 1; cSync = cDeath = cLive = true; bg(); }
extern "C" void prove_bg_live_births() { cK = 2; cQ = 1; cSync = cBirth = cLive = true; bg(); }
extern "C" void prove_bg_live_full() { cK = 2; cQ = 1; cFull = cDeath = cLive = true; bg(); }
extern "C" void prove_bg_live_full_sync() { cK = 2; cQ = 1; cFull = cSync = cLive = true; bg(); }
