// Contracts for sync(), setLogFile_internal(), the constructor and the destructor of
// RuntimeLogger (P10).  The background thread is represented by what compressionThreadMain
// guarantees (contracts/bg.cc): it completes a requested sync eventually, after passing through
// its intermediate states, and it ends after it was told to.
#include "vf_rt_shim.h"
#include "RuntimeLogger.cc"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
typedef RuntimeLogger R;
static R &RL() { return R::nanoLogSingleton; }
static struct { bool cond, requested, served, told, ended, started; int waits, joins, fd0; } G;
static bool switching, closing;
static char *bufA, *bufB;
static void frame() {
    vf_assert(RL().compressingBuffer == bufA && RL().outputDoubleBuffer == bufB, "the output buffers stay");
    vf_assert(RL().invocationSites.size() == 1 && RL().threadBuffers.size() == 1, "buffers and registered statements stay");
}
static void hook(int pt, void *o) {
    if (pt == VF_LOCK && o == &RL().condMutex) G.cond = true;
    if (pt == VF_UNLOCK && o == &RL().condMutex) {
        if (RL().syncStatus == R::SYNC_REQUESTED && !G.requested) { G.requested = true; G.served = false; }
        G.cond = false;
    }
    if (pt == VF_CV_NOTIFY) { vf_assert(o == &RL().workAdded && G.cond, "the background thread is woken"); G.told = true; }
    if (pt == VF_CV_WAIT) {
        vf_assert(o == &RL().hintSyncCompleted && G.requested && G.told, "the wait is for a requested sync");
        vf_assert(RL().compressionThread.running && !RL().compressionThreadShouldExit, "the background thread is there to serve it");
        static const decltype(R::syncStatus) next[] = {R::SYNC_REQUESTED, R::PERFORMING_SECOND_PASS, R::WAITING_ON_AIO, R::SYNC_COMPLETED};
        RL().syncStatus = next[vf_choose(4, "progress")];       // woken by chance, or told
        if (RL().syncStatus == R::SYNC_COMPLETED) G.served = true;
        RL().workAdded.notified = RL().hintSyncCompleted.notified = 0;
        vf_memo();
    }
    if (pt == VF_THREAD_JOIN) {
        vf_assert(RL().compressionThreadShouldExit && G.told, "the background thread is told to end before it is waited for");
        vf_assert(!G.cond, "no lock is held while waiting for the background thread");
        vf_assert(G.requested && G.served, "everything logged before is written before the background thread is stopped");
        vf_assert(RL().outputFd == G.fd0 && vfCloses == 0, "the log file stays open while the background thread runs");
        frame(); G.ended = true; ++G.joins;
    }
    if (pt == VF_THREAD_START) {
        vf_assert(G.ended || !switching, "one background thread at a time");
        vf_assert(!RL().compressionThreadShouldExit, "a new background thread runs until told to end");
        vf_assert(RL().nextInvocationIndexToBePersisted == 0, "a new file gets the complete dictionary");
        vf_assert(RL().outputFd == vfOpenResult, "output goes to the new file");
        G.started = true;
    }
}
static void syncState(void *, uint64_t, int kind) { if (kind & 3) vf_assert(G.cond, "the state of a sync changes only under its lock"); }
static void fd(void *, uint64_t, int kind) { if (kind & 3) vf_assert(G.ended, "the log file changes only while no background thread runs"); }
static void exitFlag(void *, uint64_t, int kind) { if (kind & 3) vf_assert(G.cond || G.ended, "the background thread is told to end under the lock it sleeps on"); }
static void fnC(int, const ParamType*, char**, char**) {}
static void start() {
    PerfUtils::Cycles::cyclesPerSec = 1e9; vf_tsc_value = 5000;
    vfRtHook = nullptr; vfOpenResult = 5; vfOpens = vfCloses = 0; vfAccessResult = 0; vfExists = 1;
    memset(&G, 0, sizeof G); switching = closing = false;
    new (&RL()) R();
    G.fd0 = 5; bufA = RL().compressingBuffer; bufB = RL().outputDoubleBuffer;
    RL().invocationSites.push_back(StaticLogInfo(fnC, "f.cc", 1, 1, "a", 0, 0, nullptr));
    RL().threadBuffers.push_back((R::StagingBuffer*)nullptr);
    RL().nextInvocationIndexToBePersisted = 1;
    RL().syncStatus = vf_choose(2, "before") ? R::SYNC_COMPLETED : R::PERFORMING_SECOND_PASS;     // another thread may be waiting for one
    vf_compact();
    vfRtHook = hook;
    vf_share(&RL().syncStatus, sizeof RL().syncStatus, syncState);
    vf_share(&RL().outputFd, sizeof RL().outputFd, fd);
    vf_share(&RL().compressionThreadShouldExit, sizeof RL().compressionThreadShouldExit, exitFlag);
}
static void stop() { vf_unshare(); vfRtHook = nullptr; vf_assert(!G.cond && !RL().condMutex.held, "no lock is left held"); }
extern "C" void prove_construct() {
    PerfUtils::Cycles::cyclesPerSec = 1e9;
    memset(&G, 0, sizeof G); switching = closing = false;
    vfOpens = vfCloses = vfAlignedN = 0; vfOpenResult = 1 + vf_choose(2, "fd");
    vfRtHook = hook; new (&RL()) R(); vfRtHook = nullptr;
    R &r = RL();
    vf_assert(G.started && vfOpens == 1 && vfCloses == 0 && r.compressionThread.running, "the background thread runs, the log file is open");
    vf_assert(r.syncStatus == R::SYNC_COMPLETED && !r.hasOutstandingOperation && !r.compressionThreadShouldExit, "nothing is pending");
    vf_assert(r.compressingBuffer && r.outputDoubleBuffer && r.compressingBuffer != r.outputDoubleBuffer, "there are two output buffers");
    vf_assert(vfAligned[0] == r.compressingBuffer && vfAligned[1] == r.outputDoubleBuffer && vfAlignedSize[0] >= NanoLogConfig::OUTPUT_BUFFER_SIZE && vfAlignedSize[1] >= NanoLogConfig::OUTPUT_BUFFER_SIZE, "of the size the background thread uses");
    vf_assert(r.threadBuffers.empty() && r.invocationSites.empty() && r.nextInvocationIndexToBePersisted == 0, "nothing is registered");
    vf_cover("end");
}
extern "C" void prove_sync() {
    start();
    R::sync();
    stop();
    vf_assert(G.requested && G.served && RL().syncStatus == R::SYNC_COMPLETED, "sync returns after the sync it requested completed");
    vf_assert(RL().compressionThread.running && RL().outputFd == 5 && vfCloses == 0, "the background thread goes on");
    frame();
    vf_cover("end");
}
static void switchTo() { static char name[] = "newlog"; RL().setLogFile(name); }
extern "C" void prove_switch() {
    start(); switching = true; vfOpenResult = 6 + vf_choose(2, "fd");
    if (vf_choose(2, "new")) { vfExists = 0; vfAccessResult = -1; }
    switchTo();
    stop();
    vf_assert(vfOpens == 2 && !__builtin_strcmp(vfOpenName, "newlog"), "the named file is opened");
    vf_assert(G.served && G.joins == 1 && vfCloses == 1 && vfLastClosed == 5, "the old file is closed once, after everything was written");
    vf_assert(RL().outputFd == vfOpenResult && G.started && RL().compressionThread.running, "logging goes on in the new file");
    frame();
    vf_cover("end");
}
// a file that cannot be used: nothing changes, and the caller is told
static void refusedState() {
    vf_unshare(); vfRtHook = nullptr;
    vf_assert(!G.requested && !G.ended && RL().compressionThread.running && !RL().compressionThreadShouldExit, "a refused file does not stop logging");
    vf_assert(RL().outputFd == 5 && vfCloses == 0 && RL().nextInvocationIndexToBePersisted == 1, "a refused file leaves the current one in use");
    vf_assert(!G.cond, "no lock is left held");
    frame();
    vf_cover("end");
}
static void failureC(void *, const std::string &, const std::error_code &) {}
extern "C" void prove_refused() {
    start(); switching = true; vfOpenResult = -1;
    if (vf_choose(2, "new")) { vfExists = 0; vfAccessResult = -1; }
    else if (vf_choose(2, "unreadable")) { vfOpenResult = 6; vfAccessResult = -1; }
    vf_replace("std::ios_base::failure[abi:cxx11]::failure(", (void*)failureC);
    vf_on_throw(refusedState);
    bool refused = false;
    try { switchTo(); } catch (...) { refused = true; refusedState(); }
    vf_assert(refused, "the caller is told that the file cannot be used");
}
extern "C" void prove_destroy() {
    start(); closing = true;
    RL().threadBuffers.clear();
    RL().threadBuffers.push_back((R::StagingBuffer*)nullptr);
    RL().~R();
    vf_unshare(); vfRtHook = nullptr;
    vf_assert(G.served && G.joins == 1, "everything logged before is written before the process ends");
    vf_assert(vfCloses == 1 && vfLastClosed == 5, "the log file is closed once");
    vf_cover("end");
    new (&RL()) R();
}
