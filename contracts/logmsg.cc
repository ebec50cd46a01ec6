// Contracts for the argument container handed to programmatic readers: any number of arguments.
#include "vf_log_shim.h"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

// Representation invariant: capacity C >= 10 of which C-10 words live in the extension
// (absent when C == 10), numArgs <= C.  prove_new: the constructor establishes it with no arguments.
static LogMessage *any(int &n) {
    LogMessage *m = (LogMessage*)malloc(sizeof(LogMessage)); new (m) LogMessage();
    uint64_t cap = vf_range(10, 1 << 20, "capacity"), k = vf_range(0, 1 << 20, "numArgs");
    vf_assume(k <= cap);
    vf_bytes(m->rawArgs, sizeof m->rawArgs, "first");
    m->totalCapacity = (int)cap; m->numArgs = n = (int)k;
    if (cap > 10) { m->rawArgsExtension = (uint64_t*)malloc(8 * (cap - 10)); vf_bytes(m->rawArgsExtension, 8 * (cap - 10), "rest"); }
    return m;
}
template<typename T> static T val() { T t; vf_bytes(&t, sizeof t, "value"); return t; }
template<typename T> static void pushContract() {
    int n; LogMessage *m = any(n);
    int k = (int)vf_range(0, 1 << 20, "k"); vf_assume(k < n);
    uint64_t before = m->get<uint64_t>(k);
    T v = val<T>();
    m->push(v);
    vf_assert(m->getNumArgs() == n + 1, "one argument more");
    T got = m->get<T>(n);
    vf_assert(!memcmp(&got, &v, sizeof v), "the argument pushed is the one returned");
    vf_assert(m->get<uint64_t>(k) == before, "the earlier arguments are kept");
    vf_assert(m->totalCapacity >= n + 1, "capacity covers the arguments");
    if (m->totalCapacity > 10) { volatile uint64_t w = m->rawArgsExtension[m->totalCapacity - 11]; }    // the extension really has the room
    m->~LogMessage(); free(m);
    vf_cover("end");
}
extern "C" void prove_push_u64() { pushContract<uint64_t>(); }
extern "C" void prove_push_int() { pushContract<int>(); }
extern "C" void prove_push_char() { pushContract<char>(); }
extern "C" void prove_push_double() { pushContract<double>(); }
extern "C" void prove_push_cstr() { pushContract<const char*>(); }
// a long double is not stored but occupies its place
extern "C" void prove_push_ldbl() {
    int n; LogMessage *m = any(n);
    int k = (int)vf_range(0, 1 << 20, "k"); vf_assume(k < n);
    uint64_t before = m->get<uint64_t>(k);
    m->push((long double)1.5L);
    vf_assert(m->getNumArgs() == n + 1, "one argument more");
    vf_assert(m->get<uint64_t>(k) == before, "the earlier arguments are kept");
    vf_cover("end");
}
extern "C" void prove_new() {
    LogMessage m;
    vf_assert(!m.valid() && m.getNumArgs() == 0 && m.totalCapacity == 10 && !m.rawArgsExtension && m.getLogId() == (uint32_t)-1, "a new message holds nothing");
    vf_cover("end");
}
extern "C" void prove_reset() {
    int n; LogMessage *m = any(n); FormatMetadata fm; int cap = m->totalCapacity; uint64_t *ext = m->rawArgsExtension;
    uint32_t id = vf_u32("id"); uint64_t ts = vf_u64("ts");
    m->reset(&fm, id, ts);
    vf_assert(m->valid() && m->getNumArgs() == 0 && m->getLogId() == id && m->getTimestamp() == ts, "reset names the new message");
    vf_assert(m->totalCapacity == cap && m->rawArgsExtension == ext, "reset keeps the storage");
    m->reset();
    vf_assert(!m->valid() && m->getNumArgs() == 0, "an emptied message is invalid");
    vf_cover("end");
}
