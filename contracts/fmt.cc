// Contracts for the two readers of a printf format string: the logging side
// (getParamInfo, countFmtParams, getNumNibblesNeeded) and the decompressor
// (Decoder::createMicroCode, getFormatType).  Both are checked against the meaning the C
// standard gives the string, which is built here piece by piece.
#include "vf_log_shim.h"
#include "Log.cc"
#include "NanoLogCpp17.h"
#include "vf_log_tail.h"
using namespace NanoLogInternal;
using namespace NanoLogInternal::Log;

enum Cls { INT, DBL, LDBL, PTR, STR, WSTR, BAD };
struct Spec { Cls cls; int size; bool w, p; int prec; int end; bool isStr; };    // end: offset just behind the specifier
static const int N = 96;
static char F[N]; static int fn;
static Spec sp[8]; static int ns;
static void put(char c) { F[fn++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }
// type the C standard (and glibc: L on integers means ll) gives to length+terminal
static bool meaning(const char *len, char t, Spec &s) {
    s.isStr = false;
    if (t == 'd' || t == 'i' || t == 'u' || t == 'o' || t == 'x' || t == 'X') {
        s.cls = INT;
        s.size = !*len ? 4 : !strcmp(len, "hh") ? 1 : !strcmp(len, "h") ? 2 : 8;
    } else if (t == 's') { s.isStr = true; s.cls = *len ? WSTR : STR; s.size = 8; return !*len || !strcmp(len, "l"); }
    else if (t == 'c') { s.cls = INT; s.size = 4; return !*len || !strcmp(len, "l"); }
    else if (t == 'p') { s.cls = PTR; s.size = 8; return !*len; }
    else { s.cls = !strcmp(len, "L") ? LDBL : DBL; s.size = !strcmp(len, "L") ? 16 : 8; return !*len || !strcmp(len, "L") || !strcmp(len, "l"); }
    return true;
}
static bool add(const char *flags, const char *width, const char *prec, const char *len, char t) {
    Spec &s = sp[ns];
    if (!meaning(len, t, s)) return false;
    put('%'); puts_(flags); puts_(width);
    s.w = width[0] == '*'; s.p = false; s.prec = -1;
    if (*prec) { s.prec = 0; s.p = prec[1] == '*'; if (!s.p) for (const char *q = prec + 1; *q; ++q) s.prec = 10 * s.prec + (*q - '0'); puts_(prec); }
    puts_(len); put(t); s.end = fn; ++ns;
    return true;
}
static const char *const FLAGS[] = {"", "-", "+0", "# -"};
static const char *const WIDTH[] = {"", "5", "12", "*"};
static const char *const PREC[] = {"", ".", ".0", ".13", ".*"};
static const char *const LEN[] = {"", "hh", "h", "l", "ll", "j", "z", "t", "L"};
static const char *pick(const char *const *a, int n, const char *nm) { return a[vf_pick(0, n - 1, nm)]; }
// plain text: nothing, one or two arbitrary characters, an escaped percent sign, a backslash
static void text() {
    switch (vf_pick(0, 5, "text")) {
    case 1: { char c = (char)vf_u8("ch"); vf_assume(c != 0 && c != '%'); put(c); break; }
    case 2: put('%'); put('%'); break;
    case 3: put('\\'); break;
    case 4: puts_("%%%%d "); break;
    case 5: puts_("h%% "); break;
    default: break;
    }
}
static void check() {
    put(0);
    const char (&f)[N] = *reinterpret_cast<const char (*)[N]>(F);
    // logging side
    int want = 0, nib = 0;
    for (int i = 0; i < ns; i++) {
        if (sp[i].w) { vf_assert(getParamInfo(f, want) == ParamType::DYNAMIC_WIDTH, "logging side: dynamic width"); ++want; ++nib; }
        if (sp[i].p) { vf_assert(getParamInfo(f, want) == ParamType::DYNAMIC_PRECISION, "logging side: dynamic precision"); ++want; ++nib; }
        ParamType t = getParamInfo(f, want);
        if (!sp[i].isStr) { vf_assert(t == ParamType::NON_STRING, "logging side: plain value"); ++nib; }
        else if (sp[i].p) vf_assert(t == ParamType::STRING_WITH_DYNAMIC_PRECISION, "logging side: string with dynamic precision");
        else if (sp[i].prec < 0) vf_assert(t == ParamType::STRING_WITH_NO_PRECISION, "logging side: string");
        else vf_assert(t == ParamType(sp[i].prec), "logging side: string with precision");
        ++want;
    }
    vf_assert(getParamInfo(f, want) == ParamType::INVALID, "logging side: no further argument");
    vf_assert(countFmtParams(f) == want, "logging side: argument count");
    vf_assert(getNumNibblesNeeded(f) == nib, "logging side: nibble count");
    // decompressor
    static char mc[1024]; char *p = mc;
    uint32_t line = 77; uint8_t sev = 3;
    vf_assert(Decoder::createMicroCode(&p, F, "dir/f.cc", line, sev), "decompressor: accepts the format string");
    FormatMetadata *fm = (FormatMetadata*)mc;
    vf_assert(fm->numNibbles == nib, "decompressor: nibble count agrees with the logging side");
    vf_assert(fm->lineNumber == line && fm->logLevel == sev && !strcmp(fm->filename, "dir/f.cc") && fm->filenameLength == 9, "decompressor: line, severity, file");
    vf_assert(fm->numPrintFragments == (ns ? ns : 1), "decompressor: one piece per specifier");
    char *q = mc + sizeof(FormatMetadata) + fm->filenameLength;
    int at = 0;
    for (int i = 0; i < (ns ? ns : 1); i++) {
        PrintFragment *pf = (PrintFragment*)q;
        int end = i + 1 < ns ? sp[i].end : fn - 1;
        vf_assert(pf->fragmentLength == end - at + 1 && pf->formatFragment[end - at] == 0, "decompressor: piece ends behind its specifier");
        for (int k = at; k < end; k++) vf_assert(pf->formatFragment[k - at] == F[k], "decompressor: the pieces joined are the format string");
        if (ns) {
            Spec &s = sp[i];
            vf_assert(pf->hasDynamicWidth == s.w && pf->hasDynamicPrecision == s.p, "decompressor: dynamic width and precision");
            Cls c = BAD; int sz = 8;
            switch (pf->argType) {
            case unsigned_char_t: case signed_char_t: c = INT; sz = 1; break;
            case unsigned_short_int_t: case short_int_t: c = INT; sz = 2; break;
            case unsigned_int_t: case int_t: case wint_t_t: c = INT; sz = 4; break;
            case unsigned_long_int_t: case unsigned_long_long_int_t: case uintmax_t_t: case size_t_t:
            case long_int_t: case long_long_int_t: case intmax_t_t: case ptrdiff_t_t: c = INT; break;
            case double_t: c = DBL; break;
            case long_double_t: c = LDBL; sz = 16; break;
            case const_void_ptr_t: c = PTR; break;
            case const_char_ptr_t: c = STR; break;
            case const_wchar_t_ptr_t: c = WSTR; break;
            default: break;
            }
            vf_assert(c == s.cls && sz == s.size, "decompressor: argument type");
        } else vf_assert(pf->argType == NONE && !pf->hasDynamicWidth && !pf->hasDynamicPrecision, "decompressor: no argument");
        at = end;
        q += sizeof(PrintFragment) + pf->fragmentLength;
    }
    vf_assert(at == fn - 1 && q <= p, "decompressor: nothing is left over");
    vf_cover("end");
}
// every specifier: flags x width x precision x length x terminal
static void every(const char *terms, int n, int nlen) {
    put('a');
    if (!add(pick(FLAGS, 4, "flags"), pick(WIDTH, 4, "width"), pick(PREC, 5, "precision"), pick(LEN, nlen, "length"), terms[vf_pick(0, n - 1, "terminal")])) return;
    put('.');
    check();
}
extern "C" void prove_spec_d() { every("d", 1, 9); }
extern "C" void prove_spec_i() { every("i", 1, 9); }
extern "C" void prove_spec_u() { every("u", 1, 9); }
extern "C" void prove_spec_o() { every("o", 1, 9); }
extern "C" void prove_spec_x() { every("x", 1, 9); }
extern "C" void prove_spec_X() { every("X", 1, 9); }
extern "C" void prove_spec_f() { every("fF", 2, 9); }
extern "C" void prove_spec_e() { every("eE", 2, 9); }
extern "C" void prove_spec_g() { every("gG", 2, 9); }
extern "C" void prove_spec_a() { every("aA", 2, 9); }
extern "C" void prove_spec_csp() { every("csp", 3, 9); }
// several specifiers with arbitrary text around them
static void small() {
    switch (vf_pick(0, 8, "spec")) {
    case 0: add("", "", "", "", 'd'); break;
    case 1: add("", "", "", "", 's'); break;
    case 2: add("", "*", ".*", "", 's'); break;
    case 3: add("", "", ".2", "l", 's'); break;
    case 4: add("-", "3", ".*", "L", 'f'); break;
    case 5: add("", "*", "", "ll", 'x'); break;
    case 6: add("", "", "", "", 'p'); break;
    case 7: add("", "", ".", "", 's'); break;
    default: add("0", "", "", "hh", 'u'); break;
    }
}
extern "C" void prove_none() { text(); text(); text(); check(); }
extern "C" void prove_one() { text(); small(); text(); check(); }
extern "C" void prove_two_a() { text(); small(); small(); check(); }
extern "C" void prove_two_b() { small(); text(); small(); check(); }
extern "C" void prove_two_c() { small(); small(); text(); check(); }
extern "C" void prove_three() { small(); small(); small(); check(); }
extern "C" void prove_many() {      // 40 arguments
    for (int i = 0; i < 6; i++) add("", i & 1 ? "*" : "", i % 3 ? ".*" : "", "", i % 3 ? 's' : 'd');
    check();
}

// any decimal width and precision
static void digits(int n, int &v) { v = 0; for (int i = 0; i < n; i++) { char c = (char)vf_u8("digit"); vf_assume(c >= '0' && c <= '9'); v = 10 * v + (c - '0'); put(c); } }
static void number(int n, const char *len, char t) {
    Spec &s = sp[ns]; int w;
    meaning(len, t, s);
    put('%'); s.w = s.p = false;
    { char c = (char)vf_u8("digit"); vf_assume(c >= '1' && c <= '9'); put(c); digits(n - 1, w); }
    put('.'); digits(n, s.prec);
    puts_(len); put(t); s.end = fn; ++ns;
    put('s'); check();
}
extern "C" void prove_number_str() { number((int)vf_pick(1, 9, "digits"), "", 's'); }
extern "C" void prove_number_wstr() { number((int)vf_pick(1, 9, "digits"), "l", 's'); }
extern "C" void prove_number_int() { number((int)vf_pick(1, 9, "digits"), "", 'd'); }
