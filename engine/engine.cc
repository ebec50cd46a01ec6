// vfe: a deductive verifier for contracts over LLVM IR of the real NanoLog code.
//
// Contracts are functions `extern "C" void prove_*()` in /verif/contracts; they
// build an arbitrary pre-state (vf_u64, vf_bytes, ...; vf_assume), call the real
// function and state its postcondition with vf_assert.  The engine symbolically
// executes the real code over *all* inputs, forking on undecided branches, and
// discharges with Z3 (bit-precise, QF_AUFBV):
//   - every vf_assert on every path,
//   - for every load/store/memcpy/memset: access inside a live object,
//   - division by zero, shift out of range, no call of abort/throw/assert_fail.
// Loops: either they terminate on every path by themselves (complete
// unrolling), or they are cut with an inferred+checked inductive invariant
// (vf_loop_cut; see Houdini in loop code below).
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <deque>
#include <algorithm>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <chrono>
#include <cstdio>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <cmath>
#include <cstring>

using namespace llvm;
typedef z3::expr E;
typedef uint64_t u64;

static z3::context *Z;
static const DataLayout *DL;
static double nowS() {
    return std::chrono::duration<double>(
        std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

struct Val {
    unsigned w = 0;              // bit width; 0 = none/aggregate
    bool isC = false;
    u64 c = 0;
    std::optional<E> e;
    std::shared_ptr<std::vector<Val>> agg;

    static Val C(unsigned w, u64 c) { Val v; v.w = w; v.isC = true; v.c = c & maskw(w); return v; }
    static Val S(const E &x) {
        Val v; E s = x;
        if (s.is_bool()) s = z3::ite(s, Z->bv_val(1, 1), Z->bv_val(0, 1));
        v.w = s.get_sort().bv_size();
        u64 n;
        if (v.w <= 64 && s.is_numeral() && s.is_numeral_u64(n)) { v.isC = true; v.c = n; return v; }
        v.e = s;
        return v;
    }
    static Val Simp(const E &x) { return S(x.simplify()); }
    static Val Agg(std::vector<Val> vs) { Val v; v.agg = std::make_shared<std::vector<Val>>(std::move(vs)); return v; }
    E ex() const {
        if (isC) return Z->bv_val((uint64_t)c, w);
        if (!e) throw std::runtime_error("value without expr");
        return *e;
    }
    int64_t sc() const { if (w >= 64) return (int64_t)c; u64 m = 1ULL << (w - 1); return (int64_t)((c ^ m) - m); }
};

static E asBool(const Val &v) {
    if (v.isC) return Z->bool_val(v.c & 1);
    E x = v.ex();
    // ite(b,1,0) -> b
    if (x.is_app() && x.decl().decl_kind() == Z3_OP_ITE && x.arg(1).is_numeral() && x.arg(2).is_numeral() && v.w == 1) {
        u64 a, b;
        if (x.arg(1).is_numeral_u64(a) && x.arg(2).is_numeral_u64(b)) {
            if (a == 1 && b == 0) return x.arg(0);
            if (a == 0 && b == 1) return !x.arg(0);
        }
    }
    return x == Z->bv_val(1, 1);
}

// ---------------------------------------------------------------- memory
// Contents of an object: dense vector of bytes (concrete offsets) or a chain of
// symbolic updates over a base.
struct ByteV { uint8_t c = 0; uint8_t idx = 0; std::shared_ptr<E> src; };  // src!=null: byte idx of src

struct Node;
typedef std::shared_ptr<const Node> NP;
struct Dense { std::vector<ByteV> b; };
struct Node {
    enum K { BASE_DENSE, BASE_ARR, BASE_CONST, STORE, COPY, FILL, OVERLAY } k;
    NP prev;
    std::shared_ptr<Dense> dense;
    std::optional<E> arr;            // BASE_ARR : Array BV64 BV8
    uint8_t cst = 0;
    Val off, len;                    // STORE/COPY/FILL
    Val val;                         // STORE: value (len bytes, little endian); FILL: byte
    NP src; Val soff;                // COPY
    std::shared_ptr<std::unordered_map<u64, ByteV>> ov;   // OVERLAY: concrete-offset bytes
    u64 ovLo = ~0ULL, ovHi = 0;
};

struct Obj {
    u64 base = 0; u64 size = 0;
    std::string name;
    bool alive = true, ro = false, isStack = false, heap = false;
    NP top;
    bool denseTop = false;           // top is BASE_DENSE, uniquely owned => mutable
    std::optional<E> symSize;        // symbolic size in bytes (<= size)
    std::optional<E> strLen;         // tagged string: length (BV64), elem size
    unsigned strElem = 1;
    bool digOk = false, digPlain = false, digRaw = false; u64 dig[2] = {0, 0}, raw[2] = {0, 0};   // digests of the contents (memo.inc)
};
typedef std::shared_ptr<Obj> OP;

struct Input { std::string name; int kind; unsigned w; std::optional<E> e; u64 n; u64 conc; std::optional<E> ln{}; };  // kind 0 scalar,1 array

// inputs of a path: shared by the paths that fork from it
struct Inputs {
    struct N { std::shared_ptr<const N> prev; Input in; N(std::shared_ptr<const N> p, Input i) : prev(std::move(p)), in(std::move(i)) {}
        ~N() { while (prev && prev.use_count() == 1) { auto t = std::move(const_cast<N*>(prev.get())->prev); prev = std::move(t); } } };
    std::shared_ptr<const N> tail;
    void push_back(Input i) { tail = std::make_shared<const N>(std::move(tail), std::move(i)); }
    std::vector<Input> all() const { std::vector<Input> r; for (auto *n = tail.get(); n; n = n->prev.get()) r.push_back(n->in); std::reverse(r.begin(), r.end()); return r; }
};
// objects of a path; the constant ones are common to all paths
struct Mem {
    static std::map<u64, OP> fixed;
    std::map<u64, OP> m;
    OP *find(u64 b) { auto i = m.find(b); if (i != m.end()) return &i->second; auto j = fixed.find(b); return j == fixed.end() ? nullptr : &j->second; }
    bool count(u64 b) { return find(b) != nullptr; }
    OP &at(u64 b) { OP *p = find(b); if (!p) throw std::out_of_range("object"); return *p; }
    OP &operator[](u64 b) { auto i = m.find(b); if (i != m.end()) return i->second; OP &o = m[b]; auto j = fixed.find(b); if (j != fixed.end()) o = j->second; return o; }
    void erase(u64 b) { m.erase(b); }
    OP below(u64 a) {      // the object with the largest base <= a
        auto i = m.upper_bound(a); auto j = fixed.upper_bound(a); OP r;
        if (i != m.begin()) r = std::prev(i)->second;
        if (j != fixed.begin()) { auto &o = std::prev(j)->second; if (!r || o->base > r->base) r = o; }
        return r;
    }
};
std::map<u64, OP> Mem::fixed;
struct LoopCut;
struct Frame {
    Function *F;
    BasicBlock *bb, *prev;
    BasicBlock::iterator ip;
    std::vector<Val> regs;
    Instruction *callsite = nullptr;
    std::vector<u64> allocas;
    std::map<u64, u64> dummy;
    bool harness = false;
    const void *hookedAt = nullptr;  // the pre-hook of this instruction ran
    bool arrived = false;            // just entered a basic block
    bool hookFrame = false;          // callback frame: do not hook again, discard result
};

struct HookR { u64 lo, hi; Function *fn; };
struct State {
    std::vector<HookR> hooks;
    Function *fenceFn = nullptr, *tscFn = nullptr;
    u64 tscAddr = 0, errnoAddr = 0;
    bool allowAbort = false; u64 compact = 0; Function *throwFn = nullptr;
    std::vector<std::string> cutNames; Function *loopPre = nullptr;
    std::vector<Frame> st;
    Mem mem;
    std::vector<E> pc;
    Inputs inputs;
    std::vector<std::string> trace;
    u64 steps = 0;
    std::map<std::pair<u64,u64>, int> dummy;
    std::map<std::string, Function*> repl; unsigned replId = 0;
    // loop cut bookkeeping
    struct Cut { int depth; BasicBlock *header; std::shared_ptr<void> data; };
    std::vector<Cut> cuts;
    unsigned branches = 0;
};

// ---------------------------------------------------------------- results
struct Failure { std::string kind, label, loc, inputs; std::vector<std::string> stack; };
static std::map<std::string, u64> dischargedBy;   // kind -> n
static u64 nOblig = 0, nDischarged = 0, nTriv = 0;
static std::vector<Failure> failures;
static std::map<std::string, int> failCount;
static std::map<std::string, u64> covers;
static std::map<std::string, u64> assertSeen;
static std::vector<std::string> unsupported, unknowns;
static std::set<std::string> funcsRun, replaced, loopCutDone, asmSeen;
static u64 nPaths = 0, nPathsEnd = 0, nInfeasible = 0, nBounded = 0;
static double solverS = 0; static u64 nQueries = 0;
static double deadline = 0, t0 = 0;
static unsigned optTimeout = 20000;
static u64 optMaxSteps = 40000000, optUnroll = 0;
static std::string dumpDir; static u64 dumpN = 0, dumpMax = 0;
static bool stopFirst = false, verbose = false;

struct Fork { E cond; };                       // re-execute current instr under cond / !cond
struct PathEnd { std::string why; };
struct Choose { unsigned n; std::string name; };   // one path per result
struct Jumped {};
struct Unsup { std::string what; };

// ---------------------------------------------------------------- solver
static z3::solver *inc; static std::vector<E> incStack;
static std::string lastUnk;
static std::optional<z3::model> lastModel;

static State *curS; static std::string locOf(State &S);
#include "lia.inc"
static bool verbose2 = getenv("VF_V2");
static bool prof = getenv("VF_PROF"); static std::map<std::string, std::pair<int, double>> profBy;
static unsigned curFirst = 0, optFirst = 4000; static int slowQueries = 0;
static z3::check_result queryPC(const std::vector<E> &pc, const E *extra, bool wantModel) {
    double s0 = nowS();
    ++nQueries;
    size_t k = 0;
    while (k < incStack.size() && k < pc.size() && z3::eq(incStack[k], pc[k])) k++;
    if (incStack.size() > k) { inc->pop(incStack.size() - k); incStack.erase(incStack.begin() + k, incStack.end()); }
    for (; k < pc.size(); k++) { inc->push(); inc->add(pc[k]); incStack.push_back(pc[k]); }
    inc->push();
    if (extra) inc->add(*extra);
    z3::check_result r;
    unsigned want = slowQueries > 1 ? 400 : 1000;
    if (want != curFirst) { z3::params p(*Z); p.set("timeout", want); inc->set(p); curFirst = want; }
    try { r = inc->check(); } catch (z3::exception &ex) { r = z3::unknown; lastUnk = ex.msg(); }
    if (r == z3::sat && wantModel) lastModel = inc->get_model();
    inc->pop();
    if (r == z3::unknown) {
        ++slowQueries;
        if (liaUnsat(pc, extra, 6000)) r = z3::unsat;
        else try {
            z3::solver s = (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "solve-eqs") &
                            z3::tactic(*Z, "smt")).mk_solver();
            z3::params p(*Z); double left = (deadline - nowS()) * 1000; unsigned ms = deadline > 0 ? (unsigned)std::max(3000.0, std::min(left, optTimeout * 4.0)) : optTimeout * 4; p.set("timeout", ms); s.set(p);
            for (auto &c : pc) s.add(c);
            if (extra) s.add(*extra);
            r = s.check();
            if (r == z3::sat && wantModel) lastModel = s.get_model();
            if (r == z3::unknown) lastUnk = s.reason_unknown();
        } catch (z3::exception &ex) { r = z3::unknown; lastUnk = ex.msg(); }
    }
    solverS += nowS() - s0;
    if (prof) { auto &q = profBy[curS ? locOf(*curS) : "?"]; q.first++; q.second += nowS() - s0; }
    if (getenv("VF_SLOWDUMP") && nowS() - s0 > 1.5) { static int sd = 0; z3::solver s(*Z); for (auto &c : pc) s.add(c); if (extra) s.add(*extra); std::ofstream f(std::string(getenv("VF_SLOWDUMP")) + "/s" + std::to_string(sd++) + ".smt2"); f << "(set-logic QF_AUFBV)\n" << s.to_smt2(); }
    if (verbose && nowS() - s0 > 1.5) { fprintf(stderr, "[slow %.1fs %s] @ %s pc=%zu\n", nowS() - s0, r == z3::sat ? "sat" : r == z3::unsat ? "unsat" : "unknown", curS ? locOf(*curS).c_str() : "?", pc.size()); if (extra && verbose2) std::cerr << *extra << "\n"; }
    return r;
}

static bool isTrueE(const E &e) { return e.is_true(); }
static bool isFalseE(const E &e) { return e.is_false(); }

// may the condition be true under pc?  unknown => true
static bool feasible(State &S, const E &c) {
    E s = c.simplify();
    if (isTrueE(s)) return true;
    if (isFalseE(s)) return false;
    auto r = queryPC(S.pc, &s, false);
    return r != z3::unsat;
}
// 1 valid, 0 not valid, -1 unknown
static int valid(State &S, const E &c, bool wantModel = false) {
    E s = c.simplify();
    if (isTrueE(s)) return 1;
    E n = !s;
    auto r = queryPC(S.pc, &n, wantModel);
    if (r == z3::unsat) {
        if (dumpMax && dumpN < dumpMax && !dumpDir.empty()) {
            z3::solver ds(*Z);
            for (auto &p : S.pc) ds.add(p);
            ds.add(n);
            std::ofstream o(dumpDir + "/q" + std::to_string(dumpN++) + ".smt2");
            o << "(set-logic ALL)\n" << ds.to_smt2();
        }
        return 1;
    }
    if (r == z3::sat) return 0;
    return -1;
}

static std::string locOf(State &S) {
    for (int i = (int)S.st.size() - 1; i >= 0; --i) {
        auto &F = S.st[i];
        Instruction *I = (i == (int)S.st.size() - 1) ? (F.ip == F.bb->end() ? nullptr : &*F.ip) : S.st[i + 1].callsite;
        if (!I) continue;
        if (auto &D = I->getDebugLoc()) {
            std::string fn = D->getFilename().str();
            return fn + ":" + std::to_string(D.getLine());
        }
    }
    return "?";
}
static std::string dem(const Function *F) {
    std::string s = llvm::demangle(F->getName().str());
    return s;
}
static std::vector<std::string> stackOf(State &S) {
    std::vector<std::string> r;
    for (int i = (int)S.st.size() - 1; i >= 0; --i) {
        auto &F = S.st[i];
        Instruction *I = (i == (int)S.st.size() - 1) ? (F.ip == F.bb->end() ? nullptr : &*F.ip) : S.st[i + 1].callsite;
        std::string l;
        if (I) if (auto &D = I->getDebugLoc()) l = D->getFilename().str() + ":" + std::to_string(D.getLine());
        r.push_back(dem(F.F) + " @ " + l);
        if (r.size() > 12) break;
    }
    return r;
}
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static std::string dumpInputs(State &S, z3::model &m) {
    std::ostringstream o;
    for (auto &in : S.inputs.all()) {
        if (in.kind == 0) {
            u64 v = in.conc;
            if (in.e) { E x = m.eval(*in.e, true); x = x.simplify(); if (!x.is_numeral_u64(v)) v = 0; }
            o << "s " << v << " " << in.name << "\n";
        } else {
            o << "a " << in.n << " " << in.name << " ";
            static const char *hx = "0123456789abcdef";
            std::string hex; size_t lastNZ = 0;
            std::optional<E> A;
            u64 lim = in.n;
            if (in.ln) { E x = m.eval(*in.ln, true).simplify(); u64 v = 0; if (x.is_numeral_u64(v)) lim = v; if (lim > 200000) lim = 200000; }
            for (u64 i = 0; i < lim; i++) {
                E x = m.eval(z3::select(*in.e, Z->bv_val((uint64_t)i, 64)), true).simplify();
                u64 v = 0; x.is_numeral_u64(v);
                hex += hx[(v >> 4) & 15]; hex += hx[v & 15];
                if (v) lastNZ = hex.size();
            }
            hex.resize(lastNZ);
            o << (hex.empty() ? "-" : hex) << "\n";
        }
    }
    return o.str();
}

static void recordFailure(State &S, const std::string &kind, const std::string &label, z3::model *m) {
    std::string key = kind + "|" + label + "|" + locOf(S);
    if (failCount[key]++ >= 2) return;
    Failure f; f.kind = kind; f.label = label; f.loc = locOf(S); f.stack = stackOf(S);
    if (m) f.inputs = dumpInputs(S, *m);
    failures.push_back(f);
    if (stopFirst) throw std::runtime_error("stop-first");
}

// Try to shrink model: prefer small values for scalars
static z3::model niceModel(State &S, const E &neg) {
    z3::model best = *lastModel;
    std::vector<E> pc = S.pc; pc.push_back(neg);
    int budget = 40;
    for (auto &in : S.inputs.all()) {
        if (in.kind != 0 || !in.e) continue;
        if (budget-- <= 0) break;
        for (u64 lim : {(u64)16, (u64)4096}) {
            if (in.w < 16) break;
            E c = z3::ule(*in.e, Z->bv_val((uint64_t)lim, in.w));
            auto r = queryPC(pc, &c, true);
            if (r == z3::sat) { best = *lastModel; pc.push_back(c); break; }
        }
        if (nowS() > deadline) break;
    }
    return best;
}

// obligation: cond must hold. On failure record and continue assuming cond.
static int trialDepth;
static void oblige(State &S, const E &cond, const std::string &kind, const std::string &label) {
    if (trialDepth) {       // invariant inference: obligations are checked in the final pass
        E s = cond.simplify(); if (isTrueE(s) || valid(S, s) == 1) return;
        if (!feasible(S, s)) throw PathEnd{"failed"};
        S.pc.push_back(s); return;
    }
    nOblig++;
    E s = cond.simplify();
    if (isTrueE(s)) { nDischarged++; nTriv++; dischargedBy[kind]++; return; }
    int v = valid(S, s, true);
    if (v == 1) { nDischarged++; dischargedBy[kind]++; return; }
    if (v == 0) {
        std::string key = kind + "|" + label + "|" + locOf(S);
        if (failCount[key] < 2) { z3::model m = niceModel(S, !s); recordFailure(S, kind, label, &m); }
        else failCount[key]++;
        // continue under cond
        if (!feasible(S, s)) throw PathEnd{"failed"};
        S.pc.push_back(s);
        return;
    }
    unknowns.push_back(kind + " " + label + " @ " + locOf(S) + " (" + lastUnk + ")");
    S.pc.push_back(s);
}
static void violateNow(State &S, const std::string &kind, const std::string &label) {
    // unconditional violation on this path (path is feasible)
    if (trialDepth) throw PathEnd{"violation"};
    nOblig++;
    auto r = queryPC(S.pc, nullptr, true);
    if (r == z3::unsat) { nDischarged++; dischargedBy[kind]++; throw PathEnd{"infeasible"}; }
    if (r == z3::sat) { z3::model m = niceModel(S, Z->bool_val(true)); recordFailure(S, kind, label, &m); }
    else unknowns.push_back(kind + " " + label);
    throw PathEnd{"violation"};
}

static void addPC(State &S, const E &c) {
    E s = c.simplify();
    if (isTrueE(s)) return;
    S.pc.push_back(s);
}

// ---------------------------------------------------------------- module-level
static Module *M;
static LLVMContext *LC;
static std::map<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> faddr;
static std::map<u64, OP> gmemInit;
static std::unordered_map<const Function*, std::unordered_map<const Value*, unsigned>> slots;
static u64 nextObjId = 16;
static const u64 OBJ_SHIFT = 36;                  // 64 GB spacing
// low bits set, so that base + offset is never rewritten into a concatenation
static const u64 BASE_LOW = (1ULL << (OBJ_SHIFT - 1)) + 0xFFFFF0;
static u64 freshBase(State *S = nullptr) {
    if (S && S->compact) {            // lowest unused address, so that equal histories give equal states
        u64 k = S->compact; auto it = S->mem.m.lower_bound((k << OBJ_SHIFT) + BASE_LOW);
        while (it != S->mem.m.end() && it->first == (k << OBJ_SHIFT) + BASE_LOW) { ++it; ++k; }
        return (k << OBJ_SHIFT) + BASE_LOW;
    }
    return ((nextObjId++) << OBJ_SHIFT) + BASE_LOW;
}
static unsigned freshN = 0;
static E freshBV(unsigned w, const std::string &n = "u") { return Z->bv_const((n + "!" + std::to_string(freshN++)).c_str(), w); }
static E freshArr(const std::string &n) {
    return Z->constant((n + "!" + std::to_string(freshN++)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8)));
}

static E namedBV(unsigned w, const std::string &n) { return Z->bv_const(n.c_str(), w); }
static NP mkDense(u64 n, bool zero, const std::string &nm, u64 fixed = 0) {
    auto nd = std::make_shared<Node>(); nd->k = Node::BASE_DENSE; nd->dense = std::make_shared<Dense>();
    nd->dense->b.resize(n);
    if (!zero) {
        // uninitialised: fresh symbolic bytes in words of 8
        static std::map<std::pair<u64, u64>, std::shared_ptr<Dense>> made;      // of fixed places: made once
        if (fixed) { auto it = made.find({fixed, n}); if (it != made.end()) { nd->dense = it->second; return nd; } made[{fixed, n}] = nd->dense; }
        for (u64 i = 0; i < n; i += 8) {
            unsigned k = (unsigned)std::min<u64>(8, n - i);
            auto e = std::make_shared<E>(fixed ? namedBV(8 * k, "un@" + std::to_string(fixed >> OBJ_SHIFT) + "+" + std::to_string(i)) : freshBV(8 * k, "un_" + nm));
            for (unsigned j = 0; j < k; j++) { nd->dense->b[i + j].src = e; nd->dense->b[i + j].idx = j; }
        }
    }
    return nd;
}
static const u64 DENSE_MAX = 1 << 16;

static OP newObj(State &S, u64 size, const std::string &name, int init /*0 zero,1 uninit*/) {
    auto o = std::make_shared<Obj>();
    o->base = freshBase(&S); o->size = size; o->name = name;
    if (size >= (1ULL << (OBJ_SHIFT - 2))) throw Unsup{"huge allocation " + std::to_string(size)};
    if (size <= DENSE_MAX) { o->top = mkDense(size, init == 0, name, S.compact ? o->base : 0); o->denseTop = true; }
    else {
        auto nd = std::make_shared<Node>();
        if (init == 0) { nd->k = Node::BASE_CONST; nd->cst = 0; }
        else { nd->k = Node::BASE_ARR; nd->arr = S.compact ? Z->constant(("un@" + std::to_string(o->base >> OBJ_SHIFT)).c_str(), Z->array_sort(Z->bv_sort(64), Z->bv_sort(8))) : freshArr("un_" + name); }
        o->top = nd;
    }
    S.mem[o->base] = o;
    return o;
}

static Obj *mut(State &S, u64 base) {
    OP &o = S.mem[base];
    if (o.use_count() > 1) { o = std::make_shared<Obj>(*o); }
    o->digOk = o->digRaw = false;
    return o.get();
}

static Val byteVal(const ByteV &b) {
    if (!b.src) return Val::C(8, b.c);
    return Val::Simp(b.src->extract(b.idx * 8 + 7, b.idx * 8));
}


static bool constDiff(const Val &a, const Val &b, int64_t &d) {
    if (a.isC && b.isC) { d = (int64_t)(a.c - b.c); return true; }
    E x = (a.ex() - b.ex()).simplify();
    u64 n; if (x.is_numeral_u64(n)) { d = (int64_t)n; return true; }
    return false;
}

static Val add64(const Val &a, const Val &b) {
    if (a.isC && b.isC) return Val::C(64, a.c + b.c);
    return Val::Simp(a.ex() + b.ex());
}
static Val sub64(const Val &a, const Val &b) {
    if (a.isC && b.isC) return Val::C(64, a.c - b.c);
    return Val::Simp(a.ex() - b.ex());
}

// read 1 byte at symbolic/concrete offset from node chain
static Val readByte(State &S, NP n, const Val &off) {
    while (true) {
        switch (n->k) {
        case Node::BASE_CONST: return Val::C(8, n->cst);
        case Node::BASE_ARR: return Val::Simp(z3::select(*n->arr, off.ex()));
        case Node::BASE_DENSE: {
            auto &b = n->dense->b;
            if (off.isC) { if (off.c < b.size()) return byteVal(b[off.c]); return Val::S(freshBV(8, "oob")); }
            // symbolic index into a dense object: nested ite over array encoding
            // use array of stores
            E a = z3::const_array(Z->bv_sort(64), Z->bv_val(0, 8));
            static std::unordered_map<const Dense*, std::pair<std::weak_ptr<Dense>, E>> cache;
            auto it = cache.find(n->dense.get());
            if (it != cache.end() && it->second.first.lock() == n->dense) a = it->second.second;
            else {
                for (size_t i = 0; i < b.size(); i++) a = z3::store(a, Z->bv_val((uint64_t)i, 64), byteVal(b[i]).ex());
            }
            return Val::Simp(z3::select(a, off.ex()));
        }
        case Node::OVERLAY: {
            if (off.isC) {
                auto it = n->ov->find(off.c);
                if (it != n->ov->end()) return byteVal(it->second);
                n = n->prev; continue;
            }
            E in = z3::uge(off.ex(), Z->bv_val((uint64_t)n->ovLo, 64)) && z3::ule(off.ex(), Z->bv_val((uint64_t)n->ovHi, 64));
            if (n->ov->empty() || !feasible(S, in)) { n = n->prev; continue; }
            E r = readByte(S, n->prev, off).ex();
            if (n->ov->size() > 4096) throw Unsup{"symbolic read over large overlay"};
            for (auto &kv : *n->ov) r = z3::ite(off.ex() == Z->bv_val((uint64_t)kv.first, 64), byteVal(kv.second).ex(), r);
            return Val::Simp(r);
        }
        case Node::STORE: {
            int64_t d;
            if (constDiff(off, n->off, d)) {
                if (d >= 0 && (u64)d < n->len.c) {
                    if (n->val.isC) return Val::C(8, n->val.c >> (8 * d));
                    return Val::Simp(n->val.ex().extract(8 * d + 7, 8 * d));
                }
                n = n->prev; continue;
            }
            E rel = (off.ex() - n->off.ex()).simplify();
            E in = z3::ult(rel, Z->bv_val(n->len.c, 64));
            if (!feasible(S, in)) { n = n->prev; continue; }
            Val rest = readByte(S, n->prev, off);
            E r = rest.ex();
            for (u64 i = 0; i < n->len.c; i++) {
                E vb = n->val.ex().extract(8 * i + 7, 8 * i);
                r = z3::ite(rel == Z->bv_val((uint64_t)i, 64), vb, r);
            }
            return Val::Simp(r);
        }
        case Node::FILL:
        case Node::COPY: {
            Val rel = sub64(off, n->off);
            E in = z3::ult(rel.ex(), n->len.ex()).simplify();
            int t = isTrueE(in) ? 1 : isFalseE(in) ? 0 : -1;
            if (t < 0) {
                if (!feasible(S, in)) t = 0;
                else if (!feasible(S, !in)) t = 1;
            }
            if (t == 0) { n = n->prev; continue; }
            Val inner = n->k == Node::FILL ? n->val : readByte(S, n->src, add64(rel, n->soff));
            if (t == 1) return inner;
            Val rest = readByte(S, n->prev, off);
            return Val::Simp(z3::ite(in, inner.ex(), rest.ex()));
        }
        }
    }
}

static ByteV getByteC(State &S, const Node *n, const NP &np, u64 off) {
    NP cur = np;
    while (true) {
        if (cur->k == Node::BASE_DENSE && off < cur->dense->b.size()) return cur->dense->b[off];
        if (cur->k == Node::BASE_CONST) { ByteV b; b.c = cur->cst; return b; }
        if (cur->k == Node::OVERLAY) {
            auto it = cur->ov->find(off);
            if (it != cur->ov->end()) return it->second;
            cur = cur->prev; continue;
        }
        if ((cur->k == Node::COPY || cur->k == Node::FILL) && cur->off.isC && cur->len.isC) {
            if (off < cur->off.c || off - cur->off.c >= cur->len.c) { cur = cur->prev; continue; }
            if (cur->k == Node::FILL && cur->val.isC) { ByteV b; b.c = cur->val.c; return b; }
            if (cur->k == Node::COPY && cur->soff.isC) { u64 o2 = off - cur->off.c + cur->soff.c; NP s2 = cur->src; cur = s2; off = o2; continue; }
        }
        if (cur->k == Node::STORE && cur->off.isC && (off < cur->off.c || off - cur->off.c >= cur->len.c)) { cur = cur->prev; continue; }
        Val v = readByte(S, cur, Val::C(64, off));
        ByteV b;
        if (v.isC) b.c = v.c; else b.src = std::make_shared<E>(v.ex());
        return b;
    }
}

static Val concatBytes(std::vector<Val> &bs) {
    unsigned n = bs.size();
    bool allC = true; for (auto &b : bs) if (!b.isC) allC = false;
    if (allC && n <= 8) { u64 c = 0; for (unsigned i = 0; i < n; i++) c |= bs[i].c << (8 * i); return Val::C(8 * n, c); }
    E x = bs[n - 1].ex();
    for (int i = (int)n - 2; i >= 0; --i) x = z3::concat(x, bs[i].ex());
    return Val::Simp(x);
}

static Val fromByteVs(std::vector<ByteV> &b) {
    u64 n = b.size();
    auto &b0 = b[0];
    if (b0.src) {
        bool same = true;
        for (u64 i = 0; i < n; i++) { auto &x = b[i]; if (x.src != b0.src || x.idx != b0.idx + i) { same = false; break; } }
        if (same) {
            unsigned w = b0.src->get_sort().bv_size();
            if (w == 8 * n && b0.idx == 0) return Val::S(*b0.src);
            return Val::Simp(b0.src->extract((b0.idx + n) * 8 - 1, b0.idx * 8));
        }
    } else if (n <= 8) {
        bool allc = true; u64 c = 0;
        for (u64 i = 0; i < n; i++) { auto &x = b[i]; if (x.src) { allc = false; break; } c |= (u64)x.c << (8 * i); }
        if (allc) return Val::C(8 * n, c);
    }
    std::vector<Val> bs;
    for (u64 i = 0; i < n; i++) bs.push_back(byteVal(b[i]));
    return concatBytes(bs);
}
static Val readMem(State &S, Obj *o, const Val &off, u64 n) {
    if (off.isC && !o->strLen) {
        std::vector<ByteV> b(n);
        if (o->top->k == Node::BASE_DENSE) for (u64 i = 0; i < n; i++) b[i] = o->top->dense->b[off.c + i];
        else for (u64 i = 0; i < n; i++) b[i] = getByteC(S, nullptr, o->top, off.c + i);
        return fromByteVs(b);
    }
    if (o->top->k == Node::STORE) {
        NP nd = o->top; int guard = 0;
        while (nd->k == Node::STORE && guard++ < 200) {
            int64_t d;
            if (!constDiff(off, nd->off, d)) break;
            if (d == 0 && nd->len.c == n) return nd->val;
            if (d + (int64_t)n <= 0 || d >= (int64_t)nd->len.c) { nd = nd->prev; continue; }
            break;
        }
    }
    std::vector<Val> bs;
    for (u64 i = 0; i < n; i++) bs.push_back(readByte(S, o->top, add64(off, Val::C(64, i))));
    Val r = concatBytes(bs);
    // instantiate string-tag facts
    if (o->strLen) {
        u64 es = o->strElem;
        if (n == es) {
            E idx = es == 1 ? off.ex() : z3::udiv(off.ex(), Z->bv_val((uint64_t)es, 64));
            E z = r.ex() == Z->bv_val(0, r.w);
            addPC(S, z3::implies(z3::ult(idx, *o->strLen), !z));
            addPC(S, z3::implies(idx == *o->strLen, z));
        } else if (es == 1) {
            for (u64 i = 0; i < n; i++) {
                E idx = (off.ex() + Z->bv_val((uint64_t)i, 64)).simplify();
                E z = bs[i].ex() == Z->bv_val(0, 8);
                addPC(S, z3::implies(z3::ult(idx, *o->strLen), !z));
                addPC(S, z3::implies(idx == *o->strLen, z));
            }
        }
    }
    return r;
}

static void ensureOwnDense(Obj *o) {
    // obj contents are shared by shared_ptr between copies; copy on write
    if (o->top.use_count() > 1 || o->top->dense.use_count() > 1) {
        auto nd = std::make_shared<Node>(*o->top);
        nd->dense = std::make_shared<Dense>(*o->top->dense);
        o->top = nd;
    }
}

static std::unordered_map<u64, ByteV> &ownOverlay(Obj *o, u64 lo, u64 hi) {
    if (o->top->k != Node::OVERLAY) {
        auto nd = std::make_shared<Node>(); nd->k = Node::OVERLAY; nd->prev = o->top; nd->ov = std::make_shared<std::unordered_map<u64, ByteV>>();
        o->top = nd;
    } else if (o->top.use_count() > 1 || o->top->ov.use_count() > 1) {
        auto nd = std::make_shared<Node>(*o->top);
        nd->ov = std::make_shared<std::unordered_map<u64, ByteV>>(*o->top->ov);
        o->top = nd;
    }
    Node *n = const_cast<Node*>(o->top.get());
    n->ovLo = std::min(n->ovLo, lo); n->ovHi = std::max(n->ovHi, hi);
    return *n->ov;
}
static void writeMem(State &S, Obj *o, const Val &off, const Val &v) {
    u64 n = (v.w + 7) / 8;
    Val vv = v;
    if (v.w % 8) vv = v.isC ? Val::C(n * 8, v.c) : Val::Simp(z3::zext(v.ex(), n * 8 - v.w));
    o->strLen.reset();
    if (o->top->k == Node::BASE_DENSE && off.isC) {
        ensureOwnDense(o);
        auto &b = const_cast<Node*>(o->top.get())->dense->b;
        if (vv.isC) for (u64 i = 0; i < n; i++) { b[off.c + i].src.reset(); b[off.c + i].c = (uint8_t)(vv.c >> (8 * i)); }
        else {
            auto sp = std::make_shared<E>(vv.ex());
            for (u64 i = 0; i < n; i++) { b[off.c + i].src = sp; b[off.c + i].idx = i; }
        }
        return;
    }
    if (off.isC) {
        auto &m = ownOverlay(o, off.c, off.c + n - 1);
        if (vv.isC) for (u64 i = 0; i < n; i++) { ByteV b; b.c = (uint8_t)(vv.c >> (8 * i)); m[off.c + i] = b; }
        else {
            auto sp = std::make_shared<E>(vv.ex());
            for (u64 i = 0; i < n; i++) { ByteV b; b.src = sp; b.idx = i; m[off.c + i] = b; }
        }
        return;
    }
    auto nd = std::make_shared<Node>();
    nd->k = Node::STORE; nd->prev = o->top; nd->off = off; nd->len = Val::C(64, n); nd->val = vv;
    o->top = nd; o->denseTop = false;
}

// ---------------------------------------------------------------- pointer resolution
static OP findObjConc(State &S, u64 a) {
    OP o = S.mem.below(a);
    return o && a >= o->base && a <= o->base + o->size ? o : nullptr;
}
static OP objById(State &S, u64 a) {   // by top bits
    u64 base = ((a >> OBJ_SHIFT) << OBJ_SHIFT) + BASE_LOW;
    OP *p = S.mem.find(base);
    return p ? *p : nullptr;
}

// constant addend of a sum
static bool constAddend(const E &x, u64 &c) {
    if (x.is_numeral()) return x.is_numeral_u64(c);
    if (x.is_app() && x.decl().decl_kind() == Z3_OP_BADD) {
        for (unsigned i = 0; i < x.num_args(); i++) {
            u64 n; if (x.arg(i).is_numeral() && x.arg(i).is_numeral_u64(n) && (n >> OBJ_SHIFT)) { c = n; return true; }
        }
        for (unsigned i = 0; i < x.num_args(); i++) if (constAddend(x.arg(i), c)) return true;
    }
    return false;
}

static void logWrite(State &S, const OP &o, const Val &off, const Val &n);
// Resolve address for access of n bytes. Emits memory-safety obligations.
static std::pair<OP, Val> resolve(State &S, const Val &addr, const Val &n, const char *what, bool write) {
    OP o; Val off;
    if (addr.isC) {
        if (n.isC && n.c == 0) { // empty access: fine
            o = findObjConc(S, addr.c);
            if (!o) o = objById(S, addr.c);
            if (!o) return {nullptr, Val::C(64, 0)};
        } else {
            o = objById(S, addr.c);
        }
        if (!o) violateNow(S, "memory", std::string("invalid-pointer-") + what);
        off = Val::C(64, addr.c - o->base);
    } else {
        u64 c;
        E ax = addr.ex();
        if (constAddend(ax, c)) o = objById(S, c);
        if (o) {
            // make sure it is that object for all values; else fork by model
            E rel = (ax - Z->bv_val((uint64_t)o->base, 64)).simplify();
            off = Val::S(rel);
        } else {
            auto r = queryPC(S.pc, nullptr, true);
            if (r != z3::sat) { if (r == z3::unsat) throw PathEnd{"infeasible"}; throw Unsup{"pointer resolution unknown"}; }
            E mv = lastModel->eval(ax, true).simplify();
            u64 v = 0; mv.is_numeral_u64(v);
            o = objById(S, v);
            if (!o) {
                // can it point to something valid at all?  a violation witness exists
                E bad = ax == mv;
                if (trialDepth) throw PathEnd{"violation"};
                nOblig++;
                z3::model m = niceModel(S, bad);
                recordFailure(S, "memory", std::string("invalid-pointer-") + what, &m);
                if (!feasible(S, !bad)) throw PathEnd{"violation"};
                throw PathEnd{"violation"};
            }
            E inobj = z3::ule(ax - Z->bv_val((uint64_t)o->base, 64), Z->bv_val((uint64_t)o->size, 64));
            if (valid(S, inobj) != 1) throw Fork{inobj};
            off = Val::Simp(ax - Z->bv_val((uint64_t)o->base, 64));
        }
    }
    if (!o->alive) violateNow(S, "memory", std::string("use-after-free-") + what);
    if (write && o->ro && !(n.isC && n.c == 0)) violateNow(S, "memory", "write-to-constant");
    // bounds
    if (off.isC && n.isC && !o->symSize) {
        nOblig++;
        if (off.c <= o->size && n.c <= o->size - off.c) { nDischarged++; nTriv++; dischargedBy["memory"]++; }
        else { nOblig--; violateNow(S, "memory", std::string("out-of-bounds-") + what + " of " + o->name + " off=" + std::to_string((int64_t)off.c) + " n=" + std::to_string(n.c) + " size=" + std::to_string(o->size)); }
    } else {
        E sz = o->symSize ? *o->symSize : Z->bv_val((uint64_t)o->size, 64);
        E ok = z3::ule(off.ex(), sz) && z3::ule(n.ex(), sz - off.ex());
        oblige(S, ok, "memory", std::string("out-of-bounds-") + what + " of " + o->name);
    }
    if (write && trialDepth) logWrite(S, o, off, n);
    return {o, off};
}

// If offset/len are symbolic but uniquely determined, concretise
static Val pinned(State &S, const Val &v) {
    return v;
}

static Val loadMem(State &S, const Val &addr, u64 n) {
    auto [o, off] = resolve(S, addr, Val::C(64, n), "read", false);
    return readMem(S, o.get(), off, n);
}
static void storeMem(State &S, const Val &addr, const Val &v) {
    u64 n = (v.w + 7) / 8;
    auto r = resolve(S, addr, Val::C(64, n), "write", true);
    u64 b = r.first->base; r.first.reset();
    writeMem(S, mut(S, b), r.second, v);
}

static void memCopy(State &S, const Val &dst, const Val &src, const Val &n, bool) {
    if (n.isC && n.c == 0) return;
    auto [so, soff] = resolve(S, src, n, "read", false);
    if (!so) return;
    auto [d, doff] = resolve(S, dst, n, "write", true);
    if (!d) return;
    u64 db = d->base; NP srcTop = so->top;
    if (n.isC && n.c <= 16384 && soff.isC && doff.isC && !so->strLen) {
        std::vector<ByteV> tmp(n.c);
        if (so->top->k == Node::BASE_DENSE) for (u64 i = 0; i < n.c; i++) tmp[i] = so->top->dense->b[soff.c + i];
        else for (u64 i = 0; i < n.c; i++) tmp[i] = getByteC(S, nullptr, so->top, soff.c + i);
        d.reset(); so.reset(); srcTop.reset();
        Obj *o = mut(S, db); o->strLen.reset();
        if (o->top->k == Node::BASE_DENSE) {
            ensureOwnDense(o);
            auto &b = const_cast<Node*>(o->top.get())->dense->b;
            for (u64 i = 0; i < n.c; i++) b[doff.c + i] = tmp[i];
        } else {
            auto &m = ownOverlay(o, doff.c, doff.c + n.c - 1);
            for (u64 i = 0; i < n.c; i++) m[doff.c + i] = tmp[i];
        }
        return;
    }
    if (n.isC && n.c <= 64) {
        // bytewise / small
        Val v = readMem(S, so.get(), soff, n.c);
        d.reset(); so.reset(); srcTop.reset();
        writeMem(S, mut(S, db), doff, v);
        return;
    }
    // freeze source if dense & symbolic copy: Node keeps reference; dense is COW through use_count
    d.reset();
    auto nd = std::make_shared<Node>();
    nd->k = Node::COPY; nd->src = srcTop; nd->soff = soff; nd->off = doff; nd->len = n;
    so.reset(); srcTop.reset();
    Obj *o = mut(S, db); o->strLen.reset();
    nd->prev = o->top; o->top = nd; o->denseTop = false;
}
static void memFill(State &S, const Val &dst, const Val &byte, const Val &n) {
    if (n.isC && n.c == 0) return;
    auto [d, doff] = resolve(S, dst, n, "write", true);
    if (!d) return;
    u64 db = d->base;
    bool dense = d->top->k == Node::BASE_DENSE;
    u64 osz = d->size;
    d.reset();
    Obj *o = mut(S, db); o->strLen.reset();
    if (n.isC && doff.isC && dense) {
        ensureOwnDense(o);
        auto &b = const_cast<Node*>(o->top.get())->dense->b;
        std::shared_ptr<E> sp; if (!byte.isC) sp = std::make_shared<E>(byte.ex());
        for (u64 i = 0; i < n.c; i++) { auto &x = b[doff.c + i]; x.src = sp; x.idx = 0; x.c = byte.isC ? byte.c : 0; }
        return;
    }
    auto nd = std::make_shared<Node>();
    if (n.isC && doff.isC && doff.c == 0 && n.c == osz && byte.isC) { nd->k = Node::BASE_CONST; nd->cst = byte.c; o->top = nd; return; }
    nd->k = Node::FILL; nd->prev = o->top; nd->off = doff; nd->len = n; nd->val = byte;
    o->top = nd; o->denseTop = false;
}

// ---------------------------------------------------------------- constants
static Val evalConst(const Constant *C);
static u64 addrOf(const GlobalValue *G) {
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    if (auto *A = dyn_cast<GlobalAlias>(G)) return addrOf(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
    throw Unsup{"address of " + G->getName().str()};
}
static unsigned bitsOf(Type *T) { return (unsigned)DL->getTypeSizeInBits(T).getFixedValue(); }
static u64 storeSize(Type *T) { return DL->getTypeStoreSize(T).getFixedValue(); }
static u64 allocSize(Type *T) { return DL->getTypeAllocSize(T).getFixedValue(); }

static Val apVal(const APInt &a) {
    if (a.getBitWidth() <= 64) return Val::C(a.getBitWidth(), a.getZExtValue());
    SmallString<64> s; a.toString(s, 10, false);
    return Val::S(Z->bv_val(s.c_str(), a.getBitWidth()));
}
static Val undefOf(Type *T) {
    if (T->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < T->getStructNumElements(); i++) v.push_back(undefOf(T->getStructElementType(i))); return Val::Agg(v); }
    if (T->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < T->getArrayNumElements(); i++) v.push_back(undefOf(T->getArrayElementType())); return Val::Agg(v); }
    if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < VT->getNumElements(); i++) v.push_back(undefOf(VT->getElementType())); return Val::Agg(v); }
    return Val::S(freshBV(bitsOf(T), "undef"));
}
static Val zeroOf(Type *T) {
    if (T->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < T->getStructNumElements(); i++) v.push_back(zeroOf(T->getStructElementType(i))); return Val::Agg(v); }
    if (T->isArrayTy()) { std::vector<Val> v; for (unsigned i = 0; i < T->getArrayNumElements(); i++) v.push_back(zeroOf(T->getArrayElementType())); return Val::Agg(v); }
    if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < VT->getNumElements(); i++) v.push_back(zeroOf(VT->getElementType())); return Val::Agg(v); }
    unsigned w = bitsOf(T);
    if (w > 64) return Val::S(Z->bv_val(0, w));
    return Val::C(w, 0);
}
static Val evalConst(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) return apVal(I->getValue());
    if (auto *F = dyn_cast<ConstantFP>(C)) return apVal(F->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(C)) return Val::C(64, 0);
    if (isa<UndefValue>(C)) return undefOf(C->getType());
    if (isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
    if (auto *G = dyn_cast<GlobalValue>(C)) return Val::C(64, addrOf(G));
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
        std::vector<Val> v; for (auto &o : A->operands()) v.push_back(evalConst(cast<Constant>(o)));
        return Val::Agg(v);
    }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        std::vector<Val> v; for (unsigned i = 0; i < D->getNumElements(); i++) v.push_back(evalConst(D->getElementAsConstant(i)));
        return Val::Agg(v);
    }
    if (auto *X = dyn_cast<ConstantExpr>(C)) {
        switch (X->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *G = cast<GEPOperator>(X);
            Val b = evalConst(cast<Constant>(G->getPointerOperand()));
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"};
            return Val::C(64, b.c + off.getZExtValue());
        }
        case Instruction::PtrToInt: { Val v = evalConst(X->getOperand(0)); return Val::C(bitsOf(X->getType()), v.c); }
        case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            Val v = evalConst(X->getOperand(0)); return Val::C(64, v.c); }
        case Instruction::Sub: return Val::C(bitsOf(X->getType()), evalConst(X->getOperand(0)).c - evalConst(X->getOperand(1)).c);
        case Instruction::Add: return Val::C(bitsOf(X->getType()), evalConst(X->getOperand(0)).c + evalConst(X->getOperand(1)).c);
        case Instruction::Trunc: return Val::C(bitsOf(X->getType()), evalConst(X->getOperand(0)).c);
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    throw Unsup{"constant " + s};
}
static void initObj(State &S, u64 addr, const Constant *C) {
    Type *T = C->getType();
    if (isa<UndefValue>(C)) return;
    if (isa<ConstantAggregateZero>(C)) { if (storeSize(T)) memFill(S, Val::C(64, addr), Val::C(8, 0), Val::C(64, storeSize(T))); return; }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < D->getNumElements(); i++) { Val v = evalConst(D->getElementAsConstant(i)); storeMem(S, Val::C(64, addr + i * D->getElementByteSize()), v); }
        return;
    }
    if (auto *A = dyn_cast<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < A->getNumOperands(); i++) {
            u64 off;
            if (auto *STy = dyn_cast<StructType>(T)) off = DL->getStructLayout(STy)->getElementOffset(i).getFixedValue();
            else off = i * allocSize(A->getOperand(i)->getType());
            initObj(S, addr + off, A->getOperand(i));
        }
        return;
    }
    Val v = evalConst(C);
    if (v.w < storeSize(T) * 8 && v.isC) v = Val::C(storeSize(T) * 8, v.c);
    storeMem(S, Val::C(64, addr), v);
}

// ---------------------------------------------------------------- executor
#include "exec.inc"
