// Contracts for the wire format: message headers, buffer extents, checkpoints
#include "vf_log_shim.h"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

// compressLogHeader / decompressLogHeader
extern "C" void prove_log_header_roundtrip() {
    UncompressedEntry e; e.fmtId = vf_u32("fmtId"); e.entrySize = vf_u32("size"); e.timestamp = vf_u64("ts");
    uint64_t last = vf_u64("last");
    char buf[32]; vf_bytes(buf, 32, "buf");
    char *p = buf;
    size_t n = compressLogHeader(&e, &p, last);
    uint64_t adv = p - buf;
    vf_assert(adv >= 3 && adv <= 13, "header is between 3 and 13 bytes");
    vf_assert(n == adv, "returned size equals the bytes written");
    vf_assert(peekEntryType(buf) == EntryType::LOG_MSGS_OR_DIC, "entry type survives");
    char *wire = new char[adv]; memcpy(wire, buf, adv);
    const char *q = wire; uint32_t id = vf_u32("junkid"); uint64_t ts = vf_u64("junkts");
    bool ok = decompressLogHeader(&q, last, id, ts);
    vf_assert(ok, "a written header is accepted");
    vf_assert(id == e.fmtId, "log id round trips");
    vf_assert(ts == e.timestamp, "timestamp round trips");
    vf_assert((uint64_t)(q - wire) == adv, "bytes consumed equal bytes produced");
    vf_cover("end");
}

// BufferExtent: Encoder::encodeLogMsgs with nothing to encode / BufferFragment::readBufferExtent
static uint64_t vfSpace() { return vf_range(0, 64, "space"); }
extern "C" void prove_extent_roundtrip() {
    uint32_t id = vf_u32("bufferId"); bool np = vf_bool("newPass");
    uint64_t cap = vfSpace();
    char *buf = new char[64 + 16]; vf_bytes(buf, 80, "buf");
    char *orig = new char[80]; memcpy(orig, buf, 80);
    Encoder enc(buf, cap, true);
    std::vector<StaticLogInfo> dict;
    uint64_t ev = vf_u64("events"), ev0 = ev;
    char none[1];
    long r = enc.encodeLogMsgs(none, 0, id, np, dict, &ev);
    vf_assert(r == 0, "no input bytes consumed");
    vf_assert(ev == ev0, "no events counted");
    uint64_t n = enc.getEncodedBytes();
    vf_assert(n <= cap, "encoded bytes fit the buffer");
    uint64_t k = vf_range(0, 79, "k");
    vf_assert(k < cap || buf[k] == orig[k], "nothing written past the buffer");
    if (n == 0) {
        vf_assert(cap < 9, "an extent is only refused when its header may not fit");
        vf_cover("end"); return;
    }
    vf_assert(n >= 5 && n <= 9, "header size");
    vfSetInput(buf, n);
    Decoder::BufferFragment *bf = (Decoder::BufferFragment*)malloc(sizeof(Decoder::BufferFragment));
    bf->validBytes = 0; bf->runtimeId = vf_u32("junk"); bf->readPos = nullptr; bf->endOfBuffer = nullptr; bf->hasMoreLogs = vf_bool("j2");
    bool w = vf_bool("junkw");
    vf_assert(peekEntryType(vfInFd()) == EntryType::BUFFER_EXTENT, "entry is recognised as an extent");
    bool ok = bf->readBufferExtent(vfInFd(), &w);
    vf_assert(ok, "a written extent is accepted");
    vf_assert(bf->runtimeId == id, "buffer id round trips");
    vf_assert(w == np, "pass marker round trips");
    vf_assert(!bf->hasNext(), "an empty extent has no messages");
    vf_assert(vfIn.pos == n && vfIn.ungot < 0, "exactly the extent is consumed");
    vf_cover("end");
}

// an extent header cut short at any byte, or any arbitrary prefix, is refused without touching anything else
extern "C" void prove_extent_truncated() {
    uint32_t id = vf_u32("bufferId"); bool np = vf_bool("newPass");
    char buf[16];
    Encoder enc(buf, 16, true);
    std::vector<StaticLogInfo> dict; char none[1];
    enc.encodeLogMsgs(none, 0, id, np, dict, nullptr);
    uint64_t n = vf_concretize(enc.getEncodedBytes());
    uint64_t cut = vf_pick(1, n - 1, "cut");
    char *file = new char[cut]; memcpy(file, buf, cut);
    vfSetInput(file, cut);
    Decoder::BufferFragment *bf = (Decoder::BufferFragment*)malloc(sizeof(Decoder::BufferFragment));
    memset(bf->storage, 0, 32);
    bool w = false;
    bool ok = bf->readBufferExtent(vfInFd(), &w);
    vf_assert(!ok, "a truncated extent is refused");
    vf_assert(!bf->hasNext(), "a truncated extent yields no messages");
    vf_assert(vf_feof(vfInFd()), "end of file is reported");
    vf_cover("end");
}

// insertCheckpoint / readCheckpoint
static void vfTscAny() { vf_tsc_value = vf_u64("tsc"); }
extern "C" void prove_checkpoint_roundtrip() {
    uint64_t cap = vf_range(0, 200, "cap");
    char *buf = new char[200]; vf_bytes(buf, 200, "buf");
    char *orig = new char[200]; memcpy(orig, buf, 200);
    uint64_t cps = vf_u64("cyclesPerSec"); vf_assume(cps << 1); double d; memcpy(&d, &cps, 8);
    PerfUtils::Cycles::cyclesPerSec = d;
    vfNow = (time_t)vf_u64("now");
    vf_tsc_fn(vfTscAny);
    char *p = buf;
    bool ok = insertCheckpoint(&p, buf + cap, false);
    uint64_t n = p - buf;
    uint64_t k = vf_range(0, 199, "k");
    if (!ok) {
        vf_assert(cap < sizeof(Checkpoint), "refused only for lack of space");
        vf_assert(n == 0, "nothing produced on failure");
        vf_assert(buf[k] == orig[k], "nothing written on failure");
        vf_cover("end"); return;
    }
    vf_assert(n <= cap, "checkpoint fits");
    vf_assert(k < n || buf[k] == orig[k], "nothing written past the checkpoint");
    vfSetInput(buf, n);
    vf_assert(peekEntryType(vfInFd()) == EntryType::CHECKPOINT, "entry is recognised as a checkpoint");
    Checkpoint cp; vf_bytes(&cp, sizeof cp, "junk");
    vf_assert(readCheckpoint(cp, vfInFd()), "a written checkpoint is accepted");
    vf_assert(cp.rdtsc == vf_tsc_value, "time stamp counter round trips");
    vf_assert(cp.unixTime == vfNow, "wall clock round trips");
    uint64_t got; memcpy(&got, &cp.cyclesPerSecond, 8);
    vf_assert(got == cps, "frequency round trips");
    vf_assert(cp.newMetadataBytes == 0 && cp.totalMetadataEntries == 0, "no dictionary announced");
    vf_assert(vfIn.pos == n, "exactly the checkpoint is consumed");
    vf_cover("end");
}
