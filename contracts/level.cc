// Contracts for the log level (P11) and for the registration of log statements (P12).
#include "vf_rt_shim.h"
#include "RuntimeLogger.cc"
#include "Log.cc"
#include "NanoLog.cc"
#include "NanoLogCpp17.h"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
static RuntimeLogger &RL() { return RuntimeLogger::nanoLogSingleton; }
static void begin() {
    PerfUtils::Cycles::cyclesPerSec = 1e9; vf_tsc_value = 5000;
    new (&RL()) RuntimeLogger();
    RuntimeLogger::stagingBuffer = nullptr;
    RuntimeLogger::preallocate();
}
// ------------------------------------------------------------------ P11
static int evaluated;
static int arg() { return ++evaluated; }
template<int SEV, typename F> static void levelContract(F call) {
    begin();
    int lvl = (int)vf_range(0, NanoLog::NUM_LOG_LEVELS - 1, "level");
    NanoLog::setLogLevel((NanoLog::LogLevel)lvl);
    vf_assert((int)NanoLog::getLogLevel() == lvl, "a valid level is taken as it is");
    SB *b = RuntimeLogger::stagingBuffer;
    bool known = false; uint64_t used = 0; unsigned n = 0;
    for (int k = 0; k < 3; k++) {                    // the same statement again, at any other level
        evaluated = 0;
        call();
        uint64_t now = b->producerPos - b->storage;
        if (SEV <= lvl) {
            ++n; used += sizeof(Log::UncompressedEntry) + 4;
            vf_assert(now == used && RL().invocationSites.size() == 1 && evaluated == 1, "a message as important as the level is recorded");
            vf_assert(RL().invocationSites[0].severity == SEV, "with its severity");
            known = true;
        } else
            vf_assert(now == used && RL().invocationSites.size() == (known ? 1 : 0) && evaluated == 0 && b->numAllocations == n, "a less important message has no effect");
        if (k < 2) {
            lvl = (int)vf_range(0, NanoLog::NUM_LOG_LEVELS - 1, "next");
            NanoLog::setLogLevel((NanoLog::LogLevel)lvl);
        }
    }
    vf_cover("end");
}
namespace NanoLog {
extern "C" void prove_level_error() { levelContract<ERROR>([] { NANO_LOG(ERROR, "m %d", arg()); }); }
extern "C" void prove_level_warning() { levelContract<WARNING>([] { NANO_LOG(WARNING, "m %d", arg()); }); }
extern "C" void prove_level_notice() { levelContract<NOTICE>([] { NANO_LOG(NOTICE, "m %d", arg()); }); }
extern "C" void prove_level_debug() { levelContract<DEBUG>([] { NANO_LOG(DEBUG, "m %d", arg()); }); }
}
extern "C" void prove_set_level() {
    begin();
    NanoLog::setLogLevel((NanoLog::LogLevel)vf_range(0, NanoLog::NUM_LOG_LEVELS - 1, "before"));
    int32_t want = (int32_t)vf_u32("level");
    int lvl; NanoLog::LogLevel l; memcpy(&l, &want, sizeof l);
    NanoLog::setLogLevel(l);
    lvl = (int)NanoLog::getLogLevel();
    vf_assert(lvl == (want < 0 ? 0 : want >= NanoLog::NUM_LOG_LEVELS ? NanoLog::NUM_LOG_LEVELS - 1 : want), "the nearest valid level is set");
    vf_cover("end");
}
extern "C" void prove_default_level() {
    begin();
    vf_assert((int)NanoLog::getLogLevel() >= 0 && (int)NanoLog::getLogLevel() < NanoLog::NUM_LOG_LEVELS, "the initial level is valid");
    vf_cover("end");
}
// ------------------------------------------------------------------ P12
// Registration table of any size; at each acquisition of the lock any number of other statements,
// and this one, may have been registered by other threads.
static void fn(int, const ParamType*, char**, char**) {}
static void otherFn(int, const ParamType*, char**, char**) {}
static bool locked, watch; static int steps;
static int id; static StaticLogInfo *mine;
static uint64_t cap; static char *table; static bool grow;
static uint64_t n0, n1; static int ghostId;       // table size and id after the other threads' steps
static bool same(const void *a, const void *b) {       // word by word, without branching
    uint64_t d = 0; const uint64_t *x = (const uint64_t*)a, *y = (const uint64_t*)b;
    for (unsigned i = 0; i < sizeof(StaticLogInfo) / 8; i++) d |= x[i] ^ y[i];
    return d == 0;
}
static bool isMine(const StaticLogInfo &i) { return same(&i, mine); }
static uint64_t count() { return RL().invocationSites._M_impl._M_finish - RL().invocationSites._M_impl._M_start; }
static void others() {
    uint64_t k = vf_range(0, 1 << 20, "others");
    auto &v = RL().invocationSites._M_impl;
    vf_assume(grow ? k == 0 : count() + k < cap);
    if (id == UNASSIGNED_LOGID && k > 0 && vf_bool("raced")) {
        uint64_t at = vf_range(0, 1 << 21, "at"); vf_assume(at >= count() && at < count() + k);
        memcpy(v._M_start + at, mine, sizeof *mine);
        id = (int)at;
    }
    v._M_finish += k;
    n1 = count(); ghostId = id;
}
static void lockHook(int pt, void *o) {
    if (o != &RL().registrationMutex) return;
    if (pt == VF_LOCK) { others(); locked = true; }
    if (pt == VF_UNLOCK) locked = false;
}
static void guarded(void *, uint64_t, int k) { vf_assert(locked, "the registry is touched only under its lock"); }
static void idAccess(void *, uint64_t, int k) { if ((k & 3) != 0) vf_assert(locked, "an id is assigned only under the lock"); }
static void registerContract(bool full, uint64_t fixed = 0) {
    begin();
    // growing copies the table inside std::vector (library code): unrolled for up to three statements
    n0 = fixed ? fixed : full ? vf_pick(0, 3, "registered") : vf_range(0, 1 << 20, "registered");
    cap = full ? n0 : 1 << 21; grow = full;
    table = (char*)malloc(cap * sizeof(StaticLogInfo));
    if (!full) vf_bytes(table, cap * sizeof(StaticLogInfo), "table");
    auto &v = RL().invocationSites._M_impl;
    v._M_start = (StaticLogInfo*)table; v._M_finish = v._M_start + n0; v._M_end_of_storage = v._M_start + cap;
    mine = new StaticLogInfo(fn, "f.cc", vf_u32("line"), vf_u8("sev"), "fmt", 0, 0, nullptr);
    id = vf_bool("known") ? (int)(full ? vf_pick(0, 3, "id") : vf_range(0, 1 << 20, "id")) : UNASSIGNED_LOGID;
    if (id != UNASSIGNED_LOGID) { vf_assume((uint64_t)id < n0); memcpy((StaticLogInfo*)table + id, mine, sizeof *mine); }
    uint64_t o = full ? vf_pick(0, 3, "other") : vf_range(0, 1 << 21, "other"); vf_assume(o < n0 || (n0 == 0 && o == 0));
    alignas(8) char keep[sizeof(StaticLogInfo)];
    if (n0 > 0) memcpy(keep, table + o * sizeof(StaticLogInfo), sizeof keep);
    vfRtHook = lockHook; locked = false;
    vf_share(&v, sizeof v, guarded); vf_share(&id, sizeof id, idAccess);
    RuntimeLogger::registerInvocationSite(*mine, id);
    vf_unshare(); vfRtHook = nullptr;
    vf_assert(!locked, "the lock is released");
    uint64_t n = count();
    vf_assert(id >= 0 && (uint64_t)id < n, "the statement has an id in the registry");
    if (ghostId != UNASSIGNED_LOGID) vf_assert(id == ghostId && n == n1, "a statement registered before keeps its id and adds nothing");
    else vf_assert(n == n1 + 1 && (uint64_t)id == n1, "a new statement is appended and gets the next id");
    vf_assert(isMine(v._M_start[id]), "the id leads to the statement's own description");
    if (n0 > 0) vf_assert(same(keep, v._M_start + o), "other statements keep their ids");
    vf_cover("end");
}
extern "C" void prove_register() { registerContract(false); }
extern "C" void prove_register_many() { registerContract(false, 300000); }
extern "C" void prove_register_grow() { registerContract(true); }
// The real macro, with two other threads executing the same statement at the lock
static int depth, raced;
static void site(int i) { NANO_LOG(NOTICE, "m %d", i); } static void site2(int i) { NANO_LOG(WARNING, "n %d", i); }   // one line: still two statements
static void raceHook(int pt, void *o) {
    if (o == &RL().registrationMutex && pt == VF_LOCK && depth < 2 && vf_bool("race")) {
        SB *own = RuntimeLogger::stagingBuffer; RuntimeLogger::stagingBuffer = nullptr;
        ++depth; if (vf_bool("otherSite")) site2(depth); else site(depth); --depth; ++raced;
        RuntimeLogger::stagingBuffer = own;
    }
}
extern "C" void prove_race() {
    begin();
    depth = raced = 0; vfRtHook = raceHook;
    site(0); site2(0); site(0);
    vfRtHook = nullptr;
    auto &v = RL().invocationSites;
    vf_assert(v.size() == 2, "each statement is registered exactly once");
    int a = !strcmp(v[0].formatString, "m %d") ? 0 : 1;
    vf_assert(!strcmp(v[a].formatString, "m %d") && !strcmp(v[1 - a].formatString, "n %d") && v[a].severity == NanoLog::NOTICE && v[1 - a].severity == NanoLog::WARNING, "each id has its own description");
    for (SB *b : RL().threadBuffers)
        for (char *p = b->storage; p < b->producerPos; ) {
            Log::UncompressedEntry u; memcpy(&u, p, sizeof u);
            vf_assert(u.fmtId < 2, "every message carries a registered id");
            p += u.entrySize;
        }
    vf_cover("end");
}
