// Rely/guarantee contracts for RuntimeLogger::StagingBuffer: one logging thread (producer), one
// background thread (consumer), interleaved at every access to the shared positions.
//
// Positions p (producer), c (consumer), e (recorded end), m (producer's private free space),
// wr = the producer is one lap ahead.  Invariant:
//   !wr: c <= p, p + m <= N, queue = [c,p)          wr: p < c <= e < N, p + m <= c, queue = [c,e) ++ [0,p)
// Each proof starts in an arbitrary state of the invariant; before every access to a shared
// position the other thread makes an arbitrary number of steps of its guarantee; every store to
// a shared position is checked to be a step of this thread's guarantee.  base counts the bytes
// of the consumer's finished laps, so that base + c and base + (wr ? e : 0) + p number the
// consumed and committed bytes: order, loss and duplication are statements about these numbers.
#include "vf_rt_shim.h"
#include "RuntimeLogger.cc"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
static const uint64_t N = NanoLogConfig::STAGING_BUFFER_SIZE;

static SB *B;
static uint64_t p, c, e, base; static bool wr, alive, mayDie;
static char *S() { return B->storage; }
static uint64_t consumed() { return base + c; }
static uint64_t committed() { return base + (wr ? e : 0) + p; }
static void writeBack() { B->producerPos = S() + p; B->endOfRecordedSpace = S() + e; B->consumerPos = S() + c; if (mayDie) B->shouldDeallocate = !alive; }
static bool inv() { return wr ? p < c && c <= e && e < N : c <= p && p < N && e <= N; }
static bool invM() { uint64_t m = B->minFreeSpace; return m <= N && (wr ? p + m <= c : p + m <= N); }

// ---- the other thread
static void consumerSteps() {
    uint64_t c2 = vf_range(0, N, "c'");
    if (wr && vf_bool("rollover")) { base += e; wr = false; vf_assume(c2 <= p); }
    else vf_assume(c2 >= c && c2 <= (wr ? e : p));
    c = c2; writeBack();
}
static void producerSteps() {
    if (!alive) return;
    uint64_t p2 = vf_range(0, N - 1, "p'");
    if (!wr) {
        uint64_t e2 = vf_range(0, N, "e'");
        if (vf_bool("rollover")) { vf_assume(e2 >= p && e2 < N && p2 < c); wr = true; }
        else vf_assume(p2 >= p);
        e = e2;
    } else vf_assume(p2 >= p && p2 < c);
    p = p2;
    if (mayDie && vf_bool("dies")) alive = false;
    writeBack();
}
// ---- observing this thread's accesses
static bool isProducer, committing, peeking; static uint64_t commitMax;
static bool dirtyContent, dirtyEnd, unfencedPos, readContent;
static int loads; static uint64_t storesToShared;
static void fence(int) { dirtyContent = dirtyEnd = unfencedPos = readContent = false; }
static void onPositions(void *a, uint64_t, int kind) {
    int k = kind & 3;
    if (kind & 4) fence(0);
    if (isProducer) {
        if (k == 1) consumerSteps();
        if (a == &B->producerPos && k == 1) {
            vf_assert(!dirtyContent, "message bytes are written before they are made visible");
            vf_assert(!dirtyEnd, "the recorded end is written before the producer rolls over");
        }
        if (a == &B->endOfRecordedSpace && k == 2) {
            uint64_t e2 = B->endOfRecordedSpace - S();
            vf_assert(e2 <= N, "the recorded end lies in the buffer");
            if (wr) vf_assert(e2 == e, "the recorded end is not moved while the consumer needs it");
            e = e2; dirtyEnd = true;
        }
        if (a == &B->producerPos && k == 2) {
            uint64_t p2 = B->producerPos - S();
            if (committing && p2 >= p) { vf_assert(p2 - p <= commitMax, "no more is committed than asked for"); commitMax -= p2 - p; p = p2; }
            else if (p2 != p) {
                vf_assert(!wr && p2 == 0 && e == p, "the producer rolls over to the start, having recorded the end of its data");
                vf_assert(c > 0, "the producer does not roll over onto the consumer");
                wr = true; p = 0;
            }
            vf_assert(inv(), "the queue invariant is kept");
        }
        vf_assert(a != &B->consumerPos || k == 0, "the producer leaves the consumer's position alone");
    } else {
        if (k == 0 || k == 1) producerSteps();
        if (a == &B->producerPos && k == 0) unfencedPos = true;
        if (a == &B->endOfRecordedSpace && k == 0) vf_assert(!unfencedPos, "the recorded end is read after the producer's position");
        if (a == &B->consumerPos && k == 1) vf_assert(!readContent, "space is released only after its bytes were read");
        if (a == &B->consumerPos && k == 2) {
            uint64_t c2 = B->consumerPos - S();
            if (!peeking || c2 >= c) { vf_assert(c2 >= c && c2 - c <= commitMax, "exactly the bytes given are released"); commitMax -= c2 - c; c = c2; }
            else { vf_assert(wr && c == e && c2 == 0, "the consumer rolls over only at the recorded end"); base += e; wr = false; c = 0; }
            vf_assert(inv(), "the queue invariant is kept");
        }
        vf_assert((a != &B->producerPos && a != &B->endOfRecordedSpace) || k == 0, "the consumer leaves the producer's positions alone");
    }
    if (kind & 8) unfencedPos = false;
}
static void onConsumerPos(void *a, uint64_t n, int kind) {
    if (isProducer && (kind & 3) == 0) {
        if (++loads > 6) vf_prune();       // iterations of the waiting loop start in the same arbitrary state
        consumerSteps();
        if (kind & 8) unfencedPos = false;
        return;
    }
    onPositions(a, n, kind);
}
static void onDealloc(void *a, uint64_t n, int kind) {
    if (isProducer) return;
    if ((kind & 3) == 0) { producerSteps(); return; }
    vf_assert(false, "only the owner marks the buffer for deletion");
}
static void onStorage(void *, uint64_t, int kind) { vf_assert((kind & 3) == 0, "queue operations do not write to the storage"); }
static void share() {
    vf_share(&B->producerPos, sizeof B->producerPos, onPositions);
    vf_share(&B->endOfRecordedSpace, sizeof B->endOfRecordedSpace, onPositions);
    vf_share((void*)&B->consumerPos, sizeof B->consumerPos, onConsumerPos);
    vf_share(&B->shouldDeallocate, 1, onDealloc);
    vf_share(B->storage, N, onStorage);
    vf_on_fence_fn(fence);
}
static void any(bool producer) {
    PerfUtils::Cycles::cyclesPerSec = 1e9;
    vf_tsc_value = 5000;
    B = new SB(vf_u32("id"));
    isProducer = producer; alive = true; mayDie = false; committing = peeking = false; loads = 0; base = 0;
    p = vf_range(0, N - 1, "p"); c = vf_range(0, N, "c"); e = vf_range(0, N, "e"); wr = vf_bool("wr");
    B->minFreeSpace = vf_range(0, N, "m");
    vf_assume(inv()); vf_assume(invM());
    writeBack();
    dirtyContent = dirtyEnd = unfencedPos = readContent = false;
}
// ---- construction establishes the invariant with an empty queue
extern "C" void prove_init() {
    any(true);
    uint32_t id = vf_u32("id2");
    SB *b = new SB(id); B = b;
    p = b->producerPos - S(); c = b->consumerPos - S(); e = b->endOfRecordedSpace - S(); wr = false;
    vf_assert(inv() && invM() && p == c, "a new buffer is empty and satisfies the invariant");
    vf_assert(b->minFreeSpace == N && !b->shouldDeallocate && b->getId() == id, "a new buffer is all free, owned, and carries its id");
    vf_cover("end");
}
// ---- reserve, both through the fast path and the slow path, blocking or not
static void reserve(int how) {
    any(true);
    uint64_t n = vf_range(1, N - 1, "nbytes"), total = committed();
    share();
    char *r = how == 0 ? B->reserveProducerSpace(n) : B->reserveSpaceInternal(n, how == 1);
    vf_unshare();
    consumerSteps();
    vf_assert(committed() == total, "reserving commits nothing");
    vf_assert(B->producerPos == S() + p && B->endOfRecordedSpace == S() + e, "only checked steps were made");
    vf_assert(inv() && invM(), "the queue invariant is kept");
    if (r) {
        vf_assert(r == S() + p, "the reservation is what the next commit publishes");
        vf_assert(n < B->minFreeSpace, "the commit is allowed");
        vf_assert(p + n < (wr ? c : N), "the reservation is contiguous, inside the buffer and clear of unconsumed bytes");
    } else vf_assert(how == 2, "a blocking reservation returns space");
    vf_cover("end");
}
extern "C" void prove_reserve() { reserve(0); }
extern "C" void prove_reserve_blocking() { reserve(1); }
extern "C" void prove_reserve_nonblocking() { reserve(2); }
// ---- commit
extern "C" void prove_commit() {
    any(true);
    uint64_t n = vf_range(0, N - 1, "nbytes"), total = committed();
    vf_assume(n < B->minFreeSpace);
    dirtyContent = true;                     // the caller has just filled the reservation
    share(); committing = true; commitMax = n;
    B->finishReservation(n);
    vf_unshare();
    consumerSteps();
    vf_assert(committed() == total + n && commitMax == 0, "exactly the reserved bytes are committed");
    vf_assert(B->producerPos == S() + p && B->endOfRecordedSpace == S() + e, "only checked steps were made");
    vf_assert(inv() && invM(), "the queue invariant is kept");
    vf_cover("end");
}
// ---- peek
extern "C" void prove_peek() {
    any(false);
    uint64_t before = committed(), done = consumed(), n = vf_u64("garbage");
    share(); peeking = true; commitMax = 0;
    char *r = B->peek(&n);
    vf_unshare();
    producerSteps();
    vf_assert(consumed() == done, "peeking consumes nothing");
    vf_assert(B->consumerPos == S() + c && r == S() + c, "peek returns the oldest unconsumed byte");
    vf_assert(n <= (wr ? e : p) - c, "peek returns only committed, valid bytes");
    vf_assert(n > 0 || consumed() >= before, "peek finds whatever was committed before it");
    vf_assert(inv(), "the queue invariant is kept");
    vf_cover("end");
}
// ---- consume any part of what was peeked
extern "C" void prove_consume() {
    any(false);
    uint64_t done = consumed(), n = vf_range(0, N, "nbytes");
    vf_assume(n <= (wr ? e : p) - c);
    readContent = true;
    share(); commitMax = n;
    B->consume(n);
    vf_unshare();
    producerSteps();
    vf_assert(consumed() == done + n && commitMax == 0 && B->consumerPos == S() + c, "exactly the bytes given are released");
    vf_assert(inv(), "the queue invariant is kept");
    vf_cover("end");
}
// ---- deletion
extern "C" void prove_checkCanDelete() {
    any(false);
    alive = vf_bool("alive"); mayDie = true; writeBack();
    bool drained = !alive && committed() == consumed() && !wr;
    uint64_t done = consumed();
    share(); peeking = true; commitMax = 0;
    bool r = B->checkCanDelete();
    vf_unshare();
    if (r) vf_assert(!alive && committed() == consumed(), "a buffer is discarded only when its owner is gone and everything was consumed");
    if (drained) vf_assert(r, "a drained buffer without owner is discarded");
    vf_assert(consumed() == done, "asking changes nothing");
    vf_cover("end");
}
extern "C" void prove_owner_exit() {
    any(true);
    RuntimeLogger::stagingBuffer = vf_bool("has") ? B : nullptr;
    bool has = RuntimeLogger::stagingBuffer;
    uint64_t total = committed();
    dirtyContent = false; share();
    { RuntimeLogger::StagingBufferDestroyer d; }
    vf_unshare();
    vf_assert(B->shouldDeallocate == has && RuntimeLogger::stagingBuffer == nullptr, "an exiting thread gives up its buffer");
    vf_assert(committed() == total && B->producerPos == S() + p, "an exiting thread's messages stay queued");
    vf_cover("end");
}
// ---- a waiting thread gets its space once the consumer has drained the buffer
extern "C" void prove_progress() {
    any(true);
    uint64_t n = vf_range(1, N - 1, "nbytes");
    uint64_t k;
    for (int round = 0; round < 3; round++) {
        if (B->reserveSpaceInternal(n, false)) { vf_cover("end"); return; }
        for (int i = 0; i < 3; i++) { B->peek(&k); B->consume(k); }
    }
    vf_fail("a reservation smaller than the buffer succeeds once everything was consumed");
}
// ---- a thread's first use creates its own buffer and announces it under the lock
static RuntimeLogger *R; static bool locked;
static void lockHook(int pt, void *o) {
    if (o != &R->bufferMutex) return;
    if (pt == VF_LOCK) { locked = true; if (vf_bool("others")) { R->nextBufferId += vf_range(0, 100, "k"); } }
    if (pt == VF_UNLOCK) locked = false;
}
static void guarded(void *, uint64_t, int) { vf_assert(locked, "the list of buffers is touched only under its lock"); }
extern "C" void prove_allocate() {
    any(true);
    p = c = e = 0; wr = false; B->minFreeSpace = N; writeBack();
    R = &RuntimeLogger::nanoLogSingleton;
    new (R) RuntimeLogger();
    R->threadBuffers.push_back(B);
    RuntimeLogger::stagingBuffer = vf_bool("has") ? B : nullptr;
    bool has = RuntimeLogger::stagingBuffer;
    R->nextBufferId = vf_range(0, 1u << 30, "nextId");
    vfRtHook = lockHook; locked = false;
    vf_share(&R->threadBuffers, sizeof R->threadBuffers, guarded);
    vf_share(&R->nextBufferId, 4, guarded);
    uint32_t id0 = R->nextBufferId;
    char *r = RuntimeLogger::reserveAlloc(8);
    vf_unshare(); vfRtHook = nullptr;
    vf_assert(!locked, "the lock is released");
    SB *m = RuntimeLogger::stagingBuffer;
    if (has) vf_assert(m == B && R->threadBuffers.size() == 1, "later uses keep the buffer");
    else {
        vf_assert(R->threadBuffers.size() == 2 && R->threadBuffers[0] == B && R->threadBuffers[1] == m && m != B, "the new buffer is announced once");
        vf_assert(m->getId() >= id0 && m->getId() < R->nextBufferId, "the new buffer's id is taken from the counter");
        vf_assert(r == m->storage, "the first reservation starts at the beginning");
    }
    vf_cover("end");
}
