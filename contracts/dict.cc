// Contracts for the dictionary: Encoder::encodeNewDictionaryEntries, Decoder::readDictionaryFragment,
// Decoder::readDictionary, Decoder::open.
#include "vf_log_shim.h"
#include "Log.cc"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

struct Site { char *file, *fmt; uint32_t line; uint8_t sev; uint64_t fileLen, fmtLen; };
static Site site[3];
static void nofn(int, const ParamType*, char**, char**) {}
static char *str(uint64_t cap, const char *n) { return (char*)vf_string(cap, 1, 1, n); }
static void addSite(std::vector<StaticLogInfo> &v, int i, uint64_t capFile, uint64_t capFmt) {
    Site &s = site[i];
    s.file = str(capFile, "file"); s.fmt = str(capFmt, "fmt"); s.line = vf_u32("line"); s.sev = vf_u8("severity");
    vf_assume(s.sev < NanoLog::NUM_LOG_LEVELS);
    s.fileLen = vf_strlen_of(s.file); s.fmtLen = vf_strlen_of(s.fmt);
    v.push_back(StaticLogInfo(nofn, s.file, s.line, s.sev, s.fmt, 0, 0, nullptr));
}
// ---- writing: any strings (up to the 64K the format allows), any room, any start position
static void writeContract(uint32_t n, uint32_t from, uint64_t prefix) {
    std::vector<StaticLogInfo> v;
    for (uint32_t i = 0; i < n; i++) addSite(v, i, 65535, 65535);
    uint64_t cap = vf_range(0, 1 << 20, "capacity"); vf_assume(prefix <= cap);
    char *out = (char*)malloc(cap);
    Encoder enc(out, cap, true);
    enc.writePos = out + prefix;
    uint32_t pos = from;
    uint32_t r = enc.encodeNewDictionaryEntries(pos, v);
    uint64_t used = enc.getEncodedBytes();
    vf_assert(used <= cap, "the dictionary stays inside the buffer");
    vf_assert(r == used - prefix, "the bytes reported are the bytes written");
    vf_assert(pos >= from && pos <= n, "statements are taken in order");
    if (r == 0) {
        vf_assert(used == prefix && pos == from, "nothing is taken when nothing is written");
        vf_assert(cap - prefix <= 8, "only a buffer without room for the fragment header is refused");
        vf_cover("end"); return;
    }
    DictionaryFragment df; memcpy(&df, out + prefix, sizeof df);
    vf_assert(df.entryType == EntryType::LOG_MSGS_OR_DIC && df.newMetadataBytes == r && df.totalMetadataEntries == pos, "fragment header");
    uint64_t at = prefix + sizeof(DictionaryFragment);
    for (uint32_t i = from; i < n; i++) {
        if (i >= pos) {
            if (i == pos) vf_assert(cap - at <= sizeof(CompressedLogInfo) + site[i].fileLen + site[i].fmtLen + 2, "stops only when the next statement does not fit");
            break;
        }
        CompressedLogInfo c; memcpy(&c, out + at, sizeof c); at += sizeof c;
        vf_assert(c.severity == site[i].sev && c.linenum == site[i].line, "severity and line");
        vf_assert(c.filenameLength == site[i].fileLen + 1 && c.formatStringLength == site[i].fmtLen + 1, "string lengths");
        uint64_t k = vf_range(0, 65535, "k");
        if (k <= site[i].fileLen) vf_assert(out[at + k] == site[i].file[k], "file name");
        at += site[i].fileLen + 1;
        if (k <= site[i].fmtLen) vf_assert(out[at + k] == site[i].fmt[k], "format string");
        at += site[i].fmtLen + 1;
    }
    vf_assert(at == used, "nothing else is written");
    vf_cover("end");
}
extern "C" void prove_write_none() { writeContract(1, 1, vf_range(0, 1 << 20, "prefix")); }
extern "C" void prove_write_1() { writeContract(1, 0, vf_range(0, 1 << 20, "prefix")); }
extern "C" void prove_write_rest() { writeContract(2, 1, vf_range(0, 1 << 20, "prefix")); }
extern "C" void prove_write_2() { writeContract(2, 0, 0); }

// ---- reading back, in one or two fragments
static Decoder *newDecoder() {
    Decoder *d = (Decoder*)malloc(sizeof(Decoder)); memset((void*)d, 0, sizeof *d);
    new (d) Decoder(); return d;
}
static void expectSite(Decoder *d, uint32_t id, const Site &s) {
    FormatMetadata *fm = (FormatMetadata*)d->fmtId2metadata.at(id);
    vf_assert(fm->logLevel == s.sev && fm->lineNumber == s.line, "severity and line restored");
    vf_assert(fm->filenameLength == s.fileLen + 1, "file name length restored");
    for (uint64_t k = 0; k <= s.fileLen; k++) if (k < 4 || k + 4 > s.fileLen) vf_assert(fm->filename[k] == s.file[k], "file name restored");
    const std::string &f = d->fmtId2fmtString.at(id);
    vf_assert(f.size() == s.fmtLen, "format string length restored");
    for (uint64_t k = 0; k < s.fmtLen; k++) if (k < 4 || k + 4 > s.fmtLen) vf_assert(f[k] == s.fmt[k], "format string restored");
    PrintFragment *pf = (PrintFragment*)((char*)fm + sizeof(FormatMetadata) + fm->filenameLength);
    vf_assert(fm->numPrintFragments == 1 && pf->argType == NONE && pf->fragmentLength == s.fmtLen + 1, "a statement without arguments has one piece");
    for (uint64_t k = 0; k <= s.fmtLen; k++) if (k < 4 || k + 4 > s.fmtLen) vf_assert(pf->formatFragment[k] == s.fmt[k], "piece restored");
}
// a statement with strings of 0..cap-1 arbitrary characters, no conversion specifiers (those: fmt.cc)
static char *shortStr(uint64_t cap, const char *n, uint64_t &len) {
    len = vf_pick(0, cap - 1, "len"); char *p = (char*)malloc(len + 1);
    vf_bytes(p, len, n); p[len] = 0;
    for (uint64_t k = 0; k < len; k++) vf_assume(p[k] != 0 && p[k] != '%' && p[k] != '\\');
    return p;
}
static void addShort(std::vector<StaticLogInfo> &v, int i, uint64_t cap) {
    Site &s = site[i];
    s.file = shortStr(cap, "file", s.fileLen); s.fmt = shortStr(cap, "fmt", s.fmtLen); s.line = vf_u32("line"); s.sev = vf_u8("severity");
    vf_assume(s.sev < NanoLog::NUM_LOG_LEVELS);
    v.push_back(StaticLogInfo(nofn, s.file, s.line, s.sev, s.fmt, 0, 0, nullptr));
}
// encoder writes `n` statements with buffers of the given sizes (a fresh buffer each time), decoder reads them all
static void roundTrip(uint32_t n, uint64_t capacity) {
    std::vector<StaticLogInfo> v;
    for (uint32_t i = 0; i < n; i++) { addShort(v, i, 3); }
    char *file = (char*)malloc(1 << 16); uint64_t fileSize = 0;
    Decoder *d = newDecoder();
    uint32_t pos = 0; int rounds = 0;
    while (pos < n) {
        char *b = (char*)malloc(capacity);
        Encoder enc(b, capacity, true);
        uint32_t r = enc.encodeNewDictionaryEntries(pos, v);
        memcpy(file + fileSize, b, vf_concretize(r)); fileSize += vf_concretize(r);
        vf_assert(++rounds <= (int)n, "each buffer takes at least one statement");
    }
    vfSetInput(file, fileSize);
    while (vfIn.pos < fileSize) vf_assert(d->readDictionaryFragment(vfInFd()), "the dictionary is read back");
    vf_assert(d->fmtId2metadata.size() == n && d->fmtId2fmtString.size() == n, "every statement is restored, once");
    for (uint32_t i = 0; i < n; i++) expectSite(d, i, site[i]);
    vf_cover("end");
}
extern "C" void prove_roundtrip_1() { roundTrip(1, 64); }
extern "C" void prove_roundtrip_2() { roundTrip(2, 64); }
extern "C" void prove_roundtrip_2_split() { roundTrip(2, 8 + 9 + 6 + 1); }
// long strings take the allocated buffers
static void longStrings(uint64_t a, uint64_t b, uint64_t c, uint64_t e) {
    uint64_t len[4] = {a, b, c, e};
    std::vector<StaticLogInfo> v;
    for (int i = 0; i < 2; i++) {
        Site &s = site[i]; s.fileLen = len[2 * i]; s.fmtLen = len[2 * i + 1]; s.line = vf_u32("line"); s.sev = 1;
        s.file = (char*)malloc(s.fileLen + 1); s.fmt = (char*)malloc(s.fmtLen + 1);
        memset(s.file, 'f' + i, s.fileLen); memset(s.fmt, 'm' + i, s.fmtLen); s.file[s.fileLen] = s.fmt[s.fmtLen] = 0;
        v.push_back(StaticLogInfo(nofn, s.file, s.line, s.sev, s.fmt, 0, 0, nullptr));
    }
    char *b0 = (char*)malloc(1 << 18); Encoder enc(b0, 1 << 18, true); uint32_t pos = 0;
    enc.encodeNewDictionaryEntries(pos, v);
    vf_assert(pos == 2, "both statements fit");
    Decoder *d = newDecoder();
    vfSetInput(b0, enc.getEncodedBytes());
    vf_assert(d->readDictionaryFragment(vfInFd()), "the dictionary is read back");
    vf_assert(d->fmtId2metadata.size() == 2, "every statement is restored, once");
    expectSite(d, 0, site[0]); expectSite(d, 1, site[1]);
    vf_cover("end");
}
extern "C" void prove_long_at_limit() { longStrings(10239, 10238, 10240, 3); }
extern "C" void prove_long_over() { longStrings(3, 10240, 10241, 20500); }
extern "C" void prove_long_grow() { longStrings(11000, 5, 3, 40000); }

// ---- a truncated dictionary is refused
extern "C" void prove_truncated() {
    std::vector<StaticLogInfo> v; addShort(v, 0, 3);
    char *b = (char*)malloc(64); Encoder enc(b, 64, true); uint32_t pos = 0;
    uint64_t n = vf_concretize(enc.encodeNewDictionaryEntries(pos, v));
    uint64_t cut = vf_pick(0, 32, "cut"); vf_assume(cut < n);
    char *f = (char*)malloc(cut); memcpy(f, b, cut);
    vfSetInput(f, cut);
    Decoder *d = newDecoder();
    bool ok = d->readDictionaryFragment(vfInFd());
    vf_assert(!ok || cut == 8, "a dictionary cut short is refused");
    vf_assert(d->fmtId2metadata.empty() && d->fmtId2fmtString.empty(), "no half-read statement is kept");
    vf_cover("end");
}

// ---- opening a new log: the old dictionary is forgotten, an embedded one is read
static char *embedded(char *p, const char *file, uint8_t fileLen, const char *text, uint8_t textLen, uint32_t line) {
    FormatMetadata *fm = (FormatMetadata*)p; memset(p, 0, sizeof(FormatMetadata));
    fm->logLevel = 2; fm->lineNumber = line; fm->filenameLength = fileLen; fm->numNibbles = 0; fm->numPrintFragments = 1;
    p += sizeof(FormatMetadata); memcpy(p, file, fileLen); p += fileLen;
    PrintFragment *pf = (PrintFragment*)p; pf->argType = NONE; pf->hasDynamicWidth = pf->hasDynamicPrecision = 0; pf->fragmentLength = textLen;
    p += sizeof(PrintFragment); memcpy(p, text, textLen); return p + textLen;
}
static uint64_t logFile(char *f, uint32_t nEntries, uint32_t line, const char *text, uint8_t textLen) {
    Checkpoint *c = (Checkpoint*)f; memset(f, 0, sizeof(Checkpoint));
    c->entryType = EntryType::CHECKPOINT; c->cyclesPerSecond = 1e9; c->unixTime = 5; c->rdtsc = 7;
    char *p = f + sizeof(Checkpoint);
    for (uint32_t i = 0; i < nEntries; i++) p = embedded(p, "a.cc", 5, text, textLen, line + i);
    c->newMetadataBytes = p - f - sizeof(Checkpoint); c->totalMetadataEntries = nEntries;
    return p - f;
}
static void expectEmbedded(Decoder *d, uint32_t n, uint32_t line, const char *text) {
    vf_assert(d->fmtId2metadata.size() == n && d->fmtId2fmtString.size() == n, "exactly the new log's statements are known");
    for (uint32_t i = 0; i < n; i++) {
        FormatMetadata *fm = (FormatMetadata*)d->fmtId2metadata.at(i);
        vf_assert(fm->lineNumber == line + i, "the new log's statement, not the old one");
        vf_assert(!strcmp(d->fmtId2fmtString.at(i).c_str(), text), "the new log's format string");
    }
}
extern "C" void prove_open_forgets() {
    char *f1 = (char*)malloc(4096), *f2 = (char*)malloc(4096);
    uint32_t n1 = vf_pick(0, 2, "oldEntries"), n2 = vf_pick(0, 2, "newEntries"), l1 = vf_u16("oldLine"), l2 = vf_u16("newLine");
    uint64_t s1 = logFile(f1, n1, l1, "old", 4), s2 = logFile(f2, n2, l2, "newer", 6);
    Decoder *d = newDecoder();
    vfSetInput(f1, s1); vf_assert(d->open("one"), "the first log opens"); expectEmbedded(d, n1, l1, "old");
    vfSetInput(f2, s2); vf_assert(d->open("two"), "the second log opens"); expectEmbedded(d, n2, l2, "newer");
    vf_assert(d->checkpoint.rdtsc == 7 && d->checkpoint.unixTime == 5, "clock mapping of the new log");
    vf_cover("end");
}
// after fragments: a dictionary learned piece by piece is forgotten too, and ids restart at 0
extern "C" void prove_open_forgets_fragments() {
    std::vector<StaticLogInfo> v; addShort(v, 0, 2);
    char *b = (char*)malloc(64); Encoder enc(b, 64, true); uint32_t pos = 0;
    uint64_t n = vf_concretize(enc.encodeNewDictionaryEntries(pos, v));
    char *f = (char*)malloc(4096); uint64_t s = logFile(f, 0, 0, "", 1);
    Decoder *d = newDecoder();
    vfSetInput(b, n); vf_assert(d->readDictionaryFragment(vfInFd()), "read"); expectSite(d, 0, site[0]);
    vfSetInput(f, s); vf_assert(d->open("new"), "the new log opens");
    vf_assert(d->fmtId2metadata.empty() && d->fmtId2fmtString.empty(), "the old dictionary is forgotten");
    vf_assert(d->endOfRawMetadata == d->rawMetadata, "its space is reused");
    vfSetInput(b, n); vf_assert(d->readDictionaryFragment(vfInFd()), "read again");
    vf_assert(d->fmtId2metadata.size() == 1, "ids restart at 0"); expectSite(d, 0, site[0]);
    vf_cover("end");
}
// a checkpoint in the middle of a log that does not reset keeps the old statements
extern "C" void prove_readDictionary_keeps() {
    char *f1 = (char*)malloc(4096), *f2 = (char*)malloc(4096);
    uint64_t s1 = logFile(f1, 2, 100, "old", 4), s2 = logFile(f2, 1, 500, "newer", 6);
    ((Checkpoint*)f2)->totalMetadataEntries = 3;
    Decoder *d = newDecoder();
    vfSetInput(f1, s1); vf_assert(d->open("one"), "opens");
    vfSetInput(f2, s2); vf_assert(d->readDictionary(vfInFd(), false), "the addition is read");
    vf_assert(d->fmtId2metadata.size() == 3, "old and new statements");
    vf_assert(((FormatMetadata*)d->fmtId2metadata[0])->lineNumber == 100 && ((FormatMetadata*)d->fmtId2metadata[1])->lineNumber == 101 && ((FormatMetadata*)d->fmtId2metadata[2])->lineNumber == 500, "in id order");
    ((Checkpoint*)f2)->totalMetadataEntries = 2;
    vfSetInput(f2, s2); vf_assert(!d->readDictionary(vfInFd(), true), "a dictionary with missing statements is refused");
    vf_cover("end");
}
