// Instruction semantics, externals and exploration.  Included by engine.cc.

static DenseMap<const Value*, unsigned> slotIx;       // filled when a function is first entered
static const std::unordered_map<const Value*, unsigned> &slotMap(Function *F) {
    auto it = slots.find(F);
    if (it != slots.end()) return it->second;
    auto &m = slots[F];
    unsigned n = 0;
    for (auto &A : F->args()) { slotIx[&A] = n; m[&A] = n++; }
    for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { slotIx[&I] = n; m[&I] = n++; }
    return m;
}
static std::unordered_map<const Function*, std::string> demCache;
static const std::string &demC(const Function *F) {
    auto it = demCache.find(F);
    if (it != demCache.end()) return it->second;
    return demCache[F] = dem(F);
}
static std::unordered_map<const Function*, int> harnessCache;
static bool isHarnessFn(Function *F) {
    auto it = harnessCache.find(F);
    if (it != harnessCache.end()) return it->second;
    int r = 0;
    if (auto *SP = F->getSubprogram()) {
        std::string fn = SP->getDirectory().str() + "/" + SP->getFilename().str();
        if (fn.find("/verif/contracts") != std::string::npos || fn.find("/verif/rt") != std::string::npos) r = 1;
        if (fn.find("/contracts/") != std::string::npos || fn.find("/rt/vf") != std::string::npos) r = 1;
    } else r = 1;
    return harnessCache[F] = r;
}

static Val getVal(State &S, Frame &F, Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) {
        static DenseMap<const Constant*, Val> cc;
        if (isa<UndefValue>(C)) return evalConst(C);
        auto it = cc.find(C); if (it != cc.end()) return it->second;
        Val v = evalConst(C); cc[C] = v; return v;
    }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return Val();
    return F.regs[slotIx.find(V)->second];
}
static void setVal(State &S, Frame &F, Value *V, Val v) {
    if (V->getType()->isVoidTy()) return;
    F.regs[slotIx.find(V)->second] = std::move(v);
}

static Val binop(State &S, unsigned op, const Val &a, const Val &b, unsigned w);

static Val extTo(const Val &v, unsigned w, bool sgn) {
    if (v.w == w) return v;
    if (v.w > w) { if (v.isC) return Val::C(w, v.c); return Val::Simp(v.ex().extract(w - 1, 0)); }
    if (v.isC && w <= 64) return Val::C(w, sgn ? (u64)v.sc() : v.c);
    return Val::Simp(sgn ? z3::sext(v.ex(), w - v.w) : z3::zext(v.ex(), w - v.w));
}
static Val toI64(const Val &v) { return extTo(v, 64, true); }
static Val boolV(const E &e) {
    E s = e.simplify();
    if (s.is_true()) return Val::C(1, 1);
    if (s.is_false()) return Val::C(1, 0);
    return Val::S(s);
}

static Val mapVec(const Val &a, const Val &b, std::function<Val(const Val&, const Val&)> f) {
    std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(f((*a.agg)[i], (*b.agg)[i]));
    return Val::Agg(r);
}

// x = sum c_i*t_i with every c_i divisible by d and every t_i small enough that nothing wraps: x/d is
// the sum of (c_i/d)*t_i, exactly.
static bool divLinear(State &S, const E &x0, u64 d, unsigned w, Val &out) {
    E x = x0.simplify(); std::vector<E> parts;
    if (x.is_app() && x.decl().decl_kind() == Z3_OP_BADD) for (unsigned i = 0; i < x.num_args(); i++) parts.push_back(x.arg(i)); else parts.push_back(x);
    E r = Z->bv_val(0, w); u64 sum = 0;
    std::vector<E> ts;
    for (auto &p : parts) {
        u64 c = 0;
        if (p.is_numeral()) { if (!p.is_numeral_u64(c) || c % d || c >> 40) return false; r = r + Z->bv_val((uint64_t)(c / d), w); sum += c; continue; }
        if (!(p.is_app() && p.decl().decl_kind() == Z3_OP_BMUL && p.num_args() == 2 && p.arg(0).is_numeral_u64(c))) return false;
        if (c % d || c >> 20) return false;
        sum += c << 40; ts.push_back(p.arg(1)); r = r + Z->bv_val((uint64_t)(c / d), w) * p.arg(1);
    }
    if (sum >> 62) return false;
    for (auto &t : ts) if (valid(S, z3::ult(t, Z->bv_val((uint64_t)1 << 40, w))) != 1) return false;
    out = Val::Simp(r); return true;
}

static Val binop(State &S, unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.agg) return mapVec(a, b, [&](const Val &x, const Val &y) { return binop(S, op, x, y, x.w); });
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (b.isC) { if (b.c == 0) violateNow(S, "arith", "division-by-zero"); nOblig++; nDischarged++; nTriv++; }
        else oblige(S, b.ex() != Z->bv_val(0, w), "arith", "division-by-zero");
    }
    if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) {
        if (b.isC) { if (b.c >= w) violateNow(S, "arith", "shift-out-of-range"); nOblig++; nDischarged++; nTriv++; }
        else oblige(S, z3::ult(b.ex(), Z->bv_val(w, w)), "arith", "shift-out-of-range");
    }
    if (a.isC && b.isC && w <= 64) {
        u64 x = a.c, y = b.c; int64_t sx = a.sc(), sy = b.sc();
        switch (op) {
        case Instruction::Add: return Val::C(w, x + y);
        case Instruction::Sub: return Val::C(w, x - y);
        case Instruction::Mul: return Val::C(w, x * y);
        case Instruction::UDiv: return Val::C(w, x / y);
        case Instruction::URem: return Val::C(w, x % y);
        case Instruction::SDiv: return Val::C(w, sy == -1 ? 0 - x : (u64)(sx / sy));
        case Instruction::SRem: return Val::C(w, sy == -1 ? 0 : (u64)(sx % sy));
        case Instruction::And: return Val::C(w, x & y);
        case Instruction::Or: return Val::C(w, x | y);
        case Instruction::Xor: return Val::C(w, x ^ y);
        case Instruction::Shl: return Val::C(w, x << y);
        case Instruction::LShr: return Val::C(w, x >> y);
        case Instruction::AShr: return Val::C(w, (u64)(sx >> y));
        }
    }
    if ((op == Instruction::SDiv || op == Instruction::UDiv) && w == 64 && b.isC && b.c > 1 && b.c < (1 << 16) && !a.isC) { Val r; if (divLinear(S, a.ex(), b.c, w, r)) return r; }
    E x = a.ex(), y = b.ex();
    switch (op) {
    case Instruction::Add: return Val::Simp(x + y);
    case Instruction::Sub: return Val::Simp(x - y);
    case Instruction::Mul: return Val::Simp(x * y);
    case Instruction::UDiv: return Val::Simp(z3::udiv(x, y));
    case Instruction::URem: return Val::Simp(z3::urem(x, y));
    case Instruction::SDiv: return Val::Simp(x / y);
    case Instruction::SRem: return Val::Simp(z3::srem(x, y));
    case Instruction::And: return Val::Simp(x & y);
    case Instruction::Or: return Val::Simp(x | y);
    case Instruction::Xor: return Val::Simp(x ^ y);
    case Instruction::Shl: return Val::Simp(z3::shl(x, y));
    case Instruction::LShr: return Val::Simp(z3::lshr(x, y));
    case Instruction::AShr: return Val::Simp(z3::ashr(x, y));
    }
    throw Unsup{"binop"};
}

// floating point: exact on concrete values, otherwise a deterministic
// uninterpreted function of the operand bits.
static double asD(const Val &v) { double d; u64 c = v.c; memcpy(&d, &c, 8); return d; }
static float asF(const Val &v) { float d; uint32_t c = (uint32_t)v.c; memcpy(&d, &c, 4); return d; }
static Val fromD(double d) { u64 c; memcpy(&c, &d, 8); return Val::C(64, c); }
static Val fromF(float d) { uint32_t c; memcpy(&c, &d, 4); return Val::C(32, c); }
static Val uf(const std::string &name, const std::vector<Val> &a, unsigned rw) {
    z3::sort_vector ss(*Z); z3::expr_vector es(*Z);
    for (auto &v : a) { ss.push_back(Z->bv_sort(v.w)); es.push_back(v.ex()); }
    auto f = Z->function((name + "_" + std::to_string(a[0].w) + "_" + std::to_string(rw)).c_str(), ss, Z->bv_sort(rw));
    return Val::S(f(es));
}
static Val fbin(unsigned op, const Val &a, const Val &b, const char *nm) {
    if (a.isC && b.isC && a.w == 64) {
        double x = asD(a), y = asD(b);
        switch (op) { case Instruction::FAdd: return fromD(x + y); case Instruction::FSub: return fromD(x - y);
        case Instruction::FMul: return fromD(x * y); case Instruction::FDiv: return fromD(x / y); case Instruction::FRem: return fromD(fmod(x, y)); }
    }
    if (a.isC && b.isC && a.w == 32) {
        float x = asF(a), y = asF(b);
        switch (op) { case Instruction::FAdd: return fromF(x + y); case Instruction::FSub: return fromF(x - y);
        case Instruction::FMul: return fromF(x * y); case Instruction::FDiv: return fromF(x / y); }
    }
    return uf(std::string("fp.") + nm, {a, b}, a.w);
}
static bool isApp(const Val &v, const std::string &pref) {
    if (v.isC || !v.e->is_app()) return false;
    return v.e->decl().name().str().rfind(pref, 0) == 0;
}
static Val fcast(unsigned op, const Val &a, unsigned w) {
    if (op == Instruction::FPExt) {
        if (a.isC && a.w == 32 && w == 64) return fromD((double)asF(a));
        return uf("fp.ext", {a}, w);
    }
    if (op == Instruction::FPTrunc) {
        if (a.isC && a.w == 64 && w == 32) return fromF((float)asD(a));
        if (isApp(a, "fp.ext")) { E in = a.e->arg(0); if (in.get_sort().bv_size() == w) return Val::S(in); }
        return uf("fp.trunc", {a}, w);
    }
    if (op == Instruction::FPToSI || op == Instruction::FPToUI) {
        if (a.isC && (a.w == 64 || a.w == 32)) {
            double d = a.w == 64 ? asD(a) : asF(a);
            if (op == Instruction::FPToSI && d > -9.2e18 && d < 9.2e18) return Val::C(w, (u64)(int64_t)d);
            if (op == Instruction::FPToUI && d >= 0 && d < 1.8e19) return Val::C(w, (u64)d);
        }
        return uf(op == Instruction::FPToSI ? "fp.tosi" : "fp.toui", {a}, w);
    }
    if (op == Instruction::SIToFP) { if (a.isC && w == 64) return fromD((double)a.sc()); if (a.isC && w == 32) return fromF((float)a.sc()); return uf("fp.fromsi", {a}, w); }
    if (op == Instruction::UIToFP) { if (a.isC && w == 64) return fromD((double)a.c); if (a.isC && w == 32) return fromF((float)a.c); return uf("fp.fromui", {a}, w); }
    throw Unsup{"fcast"};
}

static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (a.agg) return mapVec(a, b, [&](const Val &x, const Val &y) { return icmp(p, x, y); });
    if (a.isC && b.isC) {
        bool r = false; u64 x = a.c, y = b.c; int64_t sx = a.sc(), sy = b.sc();
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
        default: throw Unsup{"icmp"};
        }
        return Val::C(1, r);
    }
    E x = a.ex(), y = b.ex();
    switch (p) {
    case CmpInst::ICMP_EQ: return boolV(x == y); case CmpInst::ICMP_NE: return boolV(x != y);
    case CmpInst::ICMP_ULT: return boolV(z3::ult(x, y)); case CmpInst::ICMP_ULE: return boolV(z3::ule(x, y));
    case CmpInst::ICMP_UGT: return boolV(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return boolV(z3::uge(x, y));
    case CmpInst::ICMP_SLT: return boolV(x < y); case CmpInst::ICMP_SLE: return boolV(x <= y);
    case CmpInst::ICMP_SGT: return boolV(x > y); case CmpInst::ICMP_SGE: return boolV(x >= y);
    default: throw Unsup{"icmp"};
    }
}

static Val typed(Type *T, const Val &raw) {   // raw bits of store size -> value of type T
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
        std::vector<Val> r; u64 n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (u64 i = 0; i < n; i++) {
            Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            u64 off = T->isStructTy() ? DL->getStructLayout(cast<StructType>(T))->getElementOffset(i).getFixedValue() : i * allocSize(ET);
            u64 sz = storeSize(ET);
            Val sub = raw.isC ? Val::C(sz * 8, raw.c >> (off * 8)) : Val::Simp(raw.ex().extract((off + sz) * 8 - 1, off * 8));
            r.push_back(typed(ET, sub));
        }
        return Val::Agg(r);
    }
    unsigned w = bitsOf(T);
    return extTo(raw, w, false);
}
static void storeTyped(State &S, Val addr, Type *T, const Val &v) {
    if (v.agg) {
        u64 n = v.agg->size();
        for (u64 i = 0; i < n; i++) {
            Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            u64 off = T->isStructTy() ? DL->getStructLayout(cast<StructType>(T))->getElementOffset(i).getFixedValue() : i * allocSize(ET);
            storeTyped(S, add64(addr, Val::C(64, off)), ET, (*v.agg)[i]);
        }
        return;
    }
    u64 sz = storeSize(T);
    storeMem(S, addr, extTo(v, sz * 8, false));
}

static void pushCall(State &S, Function *F, std::vector<Val> args, Instruction *cs) {
    if (S.st.size() > 400) throw Unsup{"recursion depth"};
    Frame f; f.F = F; f.bb = &F->getEntryBlock(); f.prev = nullptr; f.ip = f.bb->begin();
    f.regs.resize(slotMap(F).size());
    unsigned i = 0;
    for (auto &A : F->args()) { if (i < args.size()) f.regs[i] = args[i]; i++; }
    f.callsite = cs;
    f.harness = isHarnessFn(F);
    if (!f.harness) funcsRun.insert(demC(F));
    S.st.push_back(std::move(f));
}

static std::string readCStr(State &S, const Val &p) {
    if (!p.isC || !p.c) return "?";
    std::string s;
    OP o = objById(S, p.c); if (!o) return "?";
    static std::unordered_map<u64, std::string> lits;           // literals do not change
    bool lit = o->ro && !o->heap && o->top->k == Node::BASE_DENSE;
    if (lit) { auto it = lits.find(p.c); if (it != lits.end()) return it->second; }
    for (u64 i = p.c - o->base; i < o->size && s.size() < 500; i++) {
        Val b = readMem(S, o.get(), Val::C(64, i), 1);
        if (!b.isC) return s + "?";
        if (!b.c) break;
        s += (char)b.c;
    }
    if (lit) lits[p.c] = s;
    return s;
}

static Val concretize(State &S, const Val &v) {
    if (v.isC) return v;
    auto r = queryPC(S.pc, nullptr, true);
    if (r == z3::unsat) throw PathEnd{"infeasible"};
    if (r != z3::sat) throw Unsup{"concretize: solver unknown"};
    E mv = lastModel->eval(v.ex(), true).simplify();
    E c = v.ex() == mv;
    if (valid(S, c) == 1) { u64 n = 0; mv.is_numeral_u64(n); return Val::C(v.w, n); }
    throw Fork{c};
}

struct SharedHook { u64 lo, hi; Function *fn; };
static std::map<const State*, int> dummyS;

// per-state extension kept in a side structure (copied with State)
#define HOOKS S.hooks

static Val nondetScalar(State &S, unsigned w, const std::string &name) {
    E e = freshBV(w, "in_" + name);
    S.inputs.push_back({name, 0, w, e, 0, 0});
    return Val::S(e);
}

#include "memo.inc"
static bool replNames(const std::string &d, const std::string &pre) {
    if (d.compare(0, pre.size(), pre) == 0) return true;
    size_t p = d.find(" " + pre);                // templates print their return type first
    return p != std::string::npos && p < 60 && d.find('(') > p;
}
static Function *matchRepl(State &S, Function *F) {
    if (S.repl.empty()) return nullptr;
    static std::map<std::map<std::string, Function*>, unsigned> sets;        // replacement sets seen
    static DenseMap<std::pair<Function*, unsigned>, Function*> known;
    if (!S.replId) S.replId = sets.emplace(S.repl, sets.size() + 1).first->second;
    auto it = known.find({F, S.replId}); if (it != known.end()) return it->second;
    Function *&res = known[{F, S.replId}]; res = nullptr;
    const std::string &d = demC(F);
    for (auto &kv : S.repl) if (replNames(d, kv.first)) { replaced.insert(d); return res = kv.second; }
    return nullptr;
}

static bool allowAbort(State &S);

// returns true if handled; result in ret
static bool external(State &S, Frame &F, CallBase *CB, Function *Fn, std::vector<Val> &a, Val &ret) {
    std::string n = Fn->getName().str();
    Type *RT = CB->getType();
    unsigned rw = (RT->isVoidTy() || RT->isStructTy()) ? 0 : bitsOf(RT);
    if (n.rfind("vf_", 0) == 0) {
        if (n == "vf_u64" || n == "vf_u32" || n == "vf_u16" || n == "vf_u8") { ret = nondetScalar(S, rw, readCStr(S, a[0])); return true; }
        if (n == "vf_range_sym") {          // lo..hi, with the high bits structurally zero
            if (!a[0].isC || !a[1].isC) {
                Val v = nondetScalar(S, 64, readCStr(S, a[2]));
                addPC(S, z3::ule(a[0].ex(), v.ex())); addPC(S, z3::ule(v.ex(), a[1].ex())); ret = v; return true;
            }
            if (a[0].c > a[1].c) throw PathEnd{"infeasible"};
            std::string nm = readCStr(S, a[2]);
            unsigned w = 8; while (w < 64 && (a[1].c >> w)) w++;
            if (a[0].c == a[1].c) { S.inputs.push_back({nm, 0, 64, std::nullopt, 0, a[0].c}); ret = a[0]; return true; }
            if (w >= 64) { Val v = nondetScalar(S, 64, nm); addPC(S, z3::ule(a[0].ex(), v.ex())); addPC(S, z3::ule(v.ex(), a[1].ex())); ret = v; return true; }
            E f = freshBV(w, "in_" + nm);
            E e = z3::zext(f, 64 - w);
            S.inputs.push_back({nm, 0, 64, e, 0, 0});
            if (a[0].c) addPC(S, z3::uge(f, Z->bv_val((uint64_t)a[0].c, w)));
            if (a[1].c != (1ULL << w) - 1) addPC(S, z3::ule(f, Z->bv_val((uint64_t)a[1].c, w)));
            ret = Val::S(e); return true;
        }
        if (n == "vf_bool") { Val v = nondetScalar(S, 8, readCStr(S, a[0])); addPC(S, z3::ule(v.ex(), Z->bv_val(1, 8))); ret = rw == 1 ? Val::Simp(v.ex().extract(0, 0)) : v; return true; }
        if (n == "vf_bytes") {
            std::string nm = readCStr(S, a[2]);
            if (!a[1].isC) {
                auto [o, off] = resolve(S, a[0], a[1], "write", true);
                E arr = freshArr("in_" + nm);
                S.inputs.push_back({nm, 1, 8, arr, 0, 0, a[1].ex()});
                if (!o) return true;
                u64 b = o->base; o.reset(); Obj *m = mut(S, b); m->strLen.reset();
                auto base = std::make_shared<Node>(); base->k = Node::BASE_ARR; base->arr = arr;
                auto nd = std::make_shared<Node>(); nd->k = Node::COPY; nd->src = base; nd->soff = Val::C(64, 0); nd->off = off; nd->len = a[1]; nd->prev = m->top;
                m->top = nd; m->denseTop = false;
                return true;
            }
            u64 len = a[1].c;
            auto [o, off] = resolve(S, a[0], Val::C(64, len), "write", true);
            if (!o) return true;
            E arr = freshArr("in_" + nm);
            S.inputs.push_back({nm, 1, 8, arr, len, 0});
            u64 b = o->base; bool dense = o->top->k == Node::BASE_DENSE && off.isC && len <= 8192; o.reset();
            Obj *m = mut(S, b); m->strLen.reset();
            if (dense) {
                ensureOwnDense(m);
                auto &bv = const_cast<Node*>(m->top.get())->dense->b;
                for (u64 i = 0; i < len; i++) { auto &x = bv[off.c + i]; x.src = std::make_shared<E>(z3::select(arr, Z->bv_val((uint64_t)i, 64))); x.idx = 0; }
            } else {
                auto base = std::make_shared<Node>(); base->k = Node::BASE_ARR; base->arr = arr;
                auto nd = std::make_shared<Node>(); nd->k = Node::COPY; nd->src = base; nd->soff = Val::C(64, 0); nd->off = off; nd->len = Val::C(64, len); nd->prev = m->top;
                m->top = nd; m->denseTop = false;
            }
            return true;
        }
        if (n == "vf_string") {   // (u64 cap, int elem, int terminated, name) -> ptr ; symbolic length < cap
            u64 cap = a[0].c; unsigned es = a[1].c; bool term = a[2].c; std::string nm = readCStr(S, a[3]);
            Val L = nondetScalar(S, 64, nm + ".len");
            addPC(S, z3::ult(L.ex(), Z->bv_val((uint64_t)cap, 64)));
            E arr = freshArr("in_" + nm);
            S.inputs.push_back({nm, 1, 8, arr, (cap < 4096 ? cap : 4096) * es, 0});
            auto o = std::make_shared<Obj>(); o->base = freshBase(); o->size = (cap + 1) * es; o->name = nm; o->heap = true;
            auto base = std::make_shared<Node>(); base->k = Node::BASE_ARR; base->arr = arr; o->top = base;
            E lb = L.ex(); if (term) lb = lb + Z->bv_val(1, 64);
            o->symSize = (lb * Z->bv_val(es, 64)).simplify();
            if (term) o->strLen = L.ex(); else { // no zero inside
                o->strLen = L.ex();
            }
            o->strElem = es;
            S.mem[o->base] = o;
            ret = Val::C(64, o->base); return true;
        }
        if (n == "vf_strtag") {   // length of tagged string at p (bytes/elem units) or ~0
            OP o = a[0].isC ? objById(S, a[0].c) : nullptr; Val off;
            if (!o && !a[0].isC) { u64 c; if (constAddend(a[0].ex(), c)) o = objById(S, c); }
            if (!o || !o->strLen || o->strElem != a[1].c) { ret = Val::C(64, ~0ULL); return true; }
            off = a[0].isC ? Val::C(64, a[0].c - o->base) : Val::Simp(a[0].ex() - Z->bv_val((uint64_t)o->base, 64));
            E idx = o->strElem == 1 ? off.ex() : z3::udiv(off.ex(), Z->bv_val(o->strElem, 64));
            E in = z3::ule(idx, *o->strLen);
            if (valid(S, in) != 1) { ret = Val::C(64, ~0ULL); return true; }
            ret = Val::Simp(*o->strLen - idx); return true;
        }
        if (n == "vf_assume") {
            E c = asBool(extTo(a[0], 1, false)).simplify();
            if (c.is_true()) return true;
            if (c.is_false() || !feasible(S, c)) throw PathEnd{"assume"};
            S.pc.push_back(c); return true;
        }
        if (n == "vf_assert") {
            std::string l = readCStr(S, a[1]); assertSeen[l]++;
            Val av = extTo(a[0], 1, false);
            if (!av.isC || !(av.c & 1)) oblige(S, asBool(av), "assert", l);
            else { if (!trialDepth) { nOblig++; nDischarged++; nTriv++; dischargedBy["assert"]++; } }
            return true;
        }
        if (n == "vf_fail") { std::string l = readCStr(S, a[0]); assertSeen[l]++; violateNow(S, "assert", l); }
        if (trialDepth && n == "vf_cover") return true;
        if (n == "vf_cover") { covers[readCStr(S, a[0])]++; return true; }
        if (n == "vf_choose_sym") { if (!a[0].isC) throw Unsup{"symbolic vf_choose"}; throw Choose{(unsigned)a[0].c, readCStr(S, a[1])}; }
        if (n == "vf_memo") { if (memoHit(S)) throw PathEnd{"memo"}; return true; }
        if (n == "vf_compact") { S.compact = nextObjId; return true; }
        if (n == "vf_on_throw") { S.throwFn = a[0].c ? faddr[a[0].c] : nullptr; return true; }
        if (n == "vf_note") { S.trace.push_back(readCStr(S, a[0])); return true; }
        if (n == "vf_concretize") { ret = concretize(S, a[0]); return true; }
        if (n == "vf_is_symbolic") { ret = Val::C(32, a[0].isC ? 0 : 1); return true; }
        if (n == "vf_native") { ret = Val::C(32, 0); return true; }
        if (n == "vf_replace") { S.repl[readCStr(S, a[0])] = faddr[a[1].c]; S.replId = 0; return true; }
        if (n == "vf_unreplace") { S.repl.erase(readCStr(S, a[0])); S.replId = 0; return true; }
        if (n == "vf_share") { S.hooks.push_back({a[0].c, a[0].c + a[1].c, faddr[a[2].c]}); return true; }
        if (n == "vf_unshare") { S.hooks.clear(); return true; }
        if (n == "vf_on_fence_fn") { S.fenceFn = faddr[a[0].c]; return true; }
        if (n == "vf_tsc_fn") { S.tscFn = faddr[a[0].c]; return true; }
        if (n == "vf_allow_abort") { S.allowAbort = a[0].c; return true; }
        if (n == "vf_end") throw PathEnd{"end"};
        if (n == "vf_prune") throw PathEnd{"prune"};
        if (n == "vf_bounded") { nBounded++; throw PathEnd{"bounded"}; }
        if (n == "vf_freeze") { if (OP o = objById(S, a[0].c)) { u64 b = o->base; o.reset(); mut(S, b)->ro = a[1].c; } return true; }
        if (n == "vf_objsize") { OP o = a[0].isC ? objById(S, a[0].c) : nullptr; ret = o ? Val::C(64, o->size) : Val::C(64, 0); return true; }
        if (n == "vf_loop_pre") { S.loopPre = a[0].c ? faddr[a[0].c] : nullptr; return true; }
        if (n == "vf_loop_cut" && a[0].isC && !a[0].c) { S.cutNames.clear(); return true; }
        if (n == "vf_loop_cut") { S.cutNames.push_back(readCStr(S, a[0])); return true; }
        if (n == "vf_trace") { if (verbose) { std::string t = readCStr(S, a[0]); fprintf(stderr, "[trace] %s %s\n", t.c_str(), a[1].isC ? std::to_string(a[1].c).c_str() : a[1].ex().to_string().c_str()); } return true; }
        throw Unsup{"vf intrinsic " + n};
    }
    auto allocN = [&](const Val &sz, int init, const char *nm) {
        Val z = sz;
        if (!z.isC) {
            // symbolic allocation: bounded by 2^33, size expr kept
            E lim = z3::ult(z.ex(), Z->bv_val((uint64_t)(1ULL << 33), 64));
            if (valid(S, lim) != 1) throw Unsup{"symbolic allocation without bound"};
            auto o = std::make_shared<Obj>(); o->base = freshBase(); o->size = 1ULL << 33; o->name = nm; o->heap = true;
            auto base = std::make_shared<Node>();
            if (init == 0) { base->k = Node::BASE_CONST; base->cst = 0; } else { base->k = Node::BASE_ARR; base->arr = freshArr("heap"); }
            o->top = base; o->symSize = z.ex(); S.mem[o->base] = o;
            return Val::C(64, o->base);
        }
        OP o = newObj(S, z.c, nm, init); o->heap = true; return Val::C(64, o->base);
    };
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret = allocN(a[0], 1, "heap"); return true; }
    if (n == "aligned_alloc" || n == "memalign") { ret = allocN(a[1], 1, "heap"); return true; }
    if (n == "calloc") { if (!a[0].isC || !a[1].isC) throw Unsup{"symbolic calloc"}; ret = allocN(Val::C(64, a[0].c * a[1].c), 0, "heap"); return true; }
    if (n == "posix_memalign") { Val p = allocN(a[2], 1, "heap"); storeMem(S, a[0], p); ret = Val::C(32, 0); return true; }
    if (n == "realloc") {
        if (!a[0].isC || !a[1].isC) throw Unsup{"symbolic realloc"};
        OP old = a[0].c ? objById(S, a[0].c) : nullptr;
        if (a[0].c && (!old || !old->alive || old->base != a[0].c)) violateNow(S, "memory", "invalid-realloc");
        Val p = allocN(a[1], 1, "heap");
        if (old) { memCopy(S, p, a[0], Val::C(64, std::min(old->size, a[1].c)), false); u64 b = old->base; old.reset(); mut(S, b)->alive = false; }
        ret = p; return true;
    }
    if (n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) {
        if (a[0].isC && a[0].c == 0) return true;
        Val p = concretize(S, a[0]);
        OP o = objById(S, p.c);
        if (!o || !o->heap || p.c != o->base) violateNow(S, "memory", "invalid-free");
        if (!o->alive) violateNow(S, "memory", "double-free");
        u64 b = o->base; o.reset(); if (S.compact) S.mem.erase(b); else mut(S, b)->alive = false; return true;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { memCopy(S, a[0], a[1], a[2], n == "memmove"); ret = a[0]; return true; }
    if (n == "memset" || n == "__memset_chk") { memFill(S, a[0], extTo(a[1], 8, false), a[2]); ret = a[0]; return true; }
    if (n == "bzero") { memFill(S, a[0], Val::C(8, 0), a[1]); return true; }
    if (n == "__cxa_guard_acquire") { Val g = loadMem(S, a[0], 1); if (!g.isC) throw Unsup{"guard"}; ret = Val::C(32, g.c ? 0 : 1); return true; }
    if (n == "__cxa_guard_release") { storeMem(S, a[0], Val::C(8, 1)); return true; }
    if (n == "__cxa_guard_abort") return true;
    if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit" || n == "__cxa_thread_atexit_impl") { ret = Val::C(32, 0); return true; }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_pure_virtual" || n == "__cxa_throw" || n == "__cxa_rethrow" || n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos || n == "_ZSt20__throw_length_errorPKc") {
        if (n == "__cxa_throw" && S.throwFn) {      // the contract's view of the state in which the exception leaves
            Function *f = S.throwFn; S.st.clear(); pushCall(S, f, {}, nullptr); throw Jumped{};
        }
        if (S.allowAbort) throw PathEnd{"abort-allowed"};
        std::string extra; if (n == "__assert_fail") extra = " " + readCStr(S, a[0]);
        violateNow(S, "abort", "call of " + n + extra);
    }
    if (n == "__cxa_allocate_exception") { ret = allocN(a[0], 1, "exc"); return true; }
    if (n == "__cxa_begin_catch" || n == "__cxa_end_catch") { if (rw) ret = Val::C(64, 0); return true; }
    if (n.rfind("_ZNSt8ios_base4InitC", 0) == 0 || n.rfind("_ZNSt8ios_base4InitD", 0) == 0) return true;
    if (n == "__errno_location") { if (!S.errnoAddr) { S.errnoAddr = newObj(S, 4, "errno", 0)->base; } ret = Val::C(64, S.errnoAddr); return true; }
    return false;
}

static bool intrinsic(State &S, Frame &F, CallBase *CB, Function *Fn, std::vector<Val> &a, Val &ret) {
    unsigned rw = (CB->getType()->isVoidTy() || CB->getType()->isStructTy()) ? 0 : bitsOf(CB->getType());
    switch (Fn->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(S, a[0], a[1], extTo(a[2], 64, false), false); return true;
    case Intrinsic::memset: memFill(S, a[0], a[1], extTo(a[2], 64, false)); return true;
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::prefetch:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::invariant_end: return true;
    case Intrinsic::invariant_start: ret = Val::C(64, 0); return true;
    case Intrinsic::stacksave: ret = Val::C(64, 0); return true;
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = Val::C(1, 0); return true;
    case Intrinsic::objectsize: ret = Val::C(rw, a[1].c ? 0 : ~0ULL); return true;
    case Intrinsic::eh_typeid_for: ret = Val::C(32, 1); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violateNow(S, "abort", "trap"); 
    case Intrinsic::readcyclecounter: ret = Val::S(freshBV(64, "tsc")); return true;
    case Intrinsic::umax: ret = icmp(CmpInst::ICMP_UGE, a[0], a[1]).isC ? (a[0].c >= a[1].c ? a[0] : a[1]) : Val::Simp(z3::ite(z3::uge(a[0].ex(), a[1].ex()), a[0].ex(), a[1].ex())); return true;
    case Intrinsic::umin: ret = icmp(CmpInst::ICMP_ULE, a[0], a[1]).isC ? (a[0].c <= a[1].c ? a[0] : a[1]) : Val::Simp(z3::ite(z3::ule(a[0].ex(), a[1].ex()), a[0].ex(), a[1].ex())); return true;
    case Intrinsic::smax: ret = Val::Simp(z3::ite(a[0].ex() >= a[1].ex(), a[0].ex(), a[1].ex())); return true;
    case Intrinsic::smin: ret = Val::Simp(z3::ite(a[0].ex() <= a[1].ex(), a[0].ex(), a[1].ex())); return true;
    case Intrinsic::abs: ret = Val::Simp(z3::ite(a[0].ex() < Z->bv_val(0, rw), -a[0].ex(), a[0].ex())); return true;
    case Intrinsic::bswap: { E x = a[0].ex(); E r = x.extract(7, 0); for (unsigned i = 8; i < rw; i += 8) r = z3::concat(r, x.extract(i + 7, i)); ret = Val::Simp(r); return true; }
    case Intrinsic::ctpop: { E x = a[0].ex(); E r = Z->bv_val(0, rw); for (unsigned i = 0; i < rw; i++) r = r + z3::zext(x.extract(i, i), rw - 1); ret = Val::Simp(r); return true; }
    case Intrinsic::ctlz: { E x = a[0].ex(); E r = Z->bv_val(rw, rw); for (unsigned i = 0; i < rw; i++) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val(rw - 1 - i, rw), r); ret = Val::Simp(r); return true; }
    case Intrinsic::cttz: { E x = a[0].ex(); E r = Z->bv_val(rw, rw); for (int i = rw - 1; i >= 0; i--) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val(i, rw), r); ret = Val::Simp(r); return true; }
    case Intrinsic::fshl: { E x = z3::concat(a[0].ex(), a[1].ex()); E sh = z3::zext(z3::urem(a[2].ex(), Z->bv_val(rw, rw)), rw); ret = Val::Simp(z3::shl(x, sh).extract(2 * rw - 1, rw)); return true; }
    case Intrinsic::fshr: { E x = z3::concat(a[0].ex(), a[1].ex()); E sh = z3::zext(z3::urem(a[2].ex(), Z->bv_val(rw, rw)), rw); ret = Val::Simp(z3::lshr(x, sh).extract(rw - 1, 0)); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = a[0].w; auto id = Fn->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        E x = sg ? z3::sext(a[0].ex(), w) : z3::zext(a[0].ex(), w), y = sg ? z3::sext(a[1].ex(), w) : z3::zext(a[1].ex(), w);
        E r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? x + y :
              (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? x - y : x * y;
        E lo = r.extract(w - 1, 0);
        E ov = r != (sg ? z3::sext(lo, w) : z3::zext(lo, w));
        ret = Val::Agg({Val::Simp(lo), boolV(ov)}); return true;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], "mul"), a[2], "add"); return true;
    case Intrinsic::fabs: ret = a[0].isC ? Val::C(rw, a[0].c & ~(1ULL << (rw - 1))) : Val::Simp(z3::concat(Z->bv_val(0, 1), a[0].ex().extract(rw - 2, 0))); return true;
    case Intrinsic::ceil: if (a[0].isC && rw == 64) ret = fromD(ceil(asD(a[0]))); else ret = uf("fp.ceil", {a[0]}, rw); return true;
    case Intrinsic::floor: if (a[0].isC && rw == 64) ret = fromD(floor(asD(a[0]))); else ret = uf("fp.floor", {a[0]}, rw); return true;
    default: return false;
    }
}

static void gotoBB(State &S, Frame &F, BasicBlock *to) {
    F.prev = F.bb; F.bb = to; F.ip = to->begin(); F.arrived = true;
    // evaluate phis simultaneously
    std::vector<std::pair<Value*, Val>> vs;
    for (auto &P : to->phis()) vs.push_back({&P, getVal(S, F, P.getIncomingValueForBlock(F.prev))});
    for (auto &kv : vs) setVal(S, F, kv.first, kv.second);
    while (isa<PHINode>(&*F.ip)) ++F.ip;
}

static void doRet(State &S, Val v) {
    Frame f = std::move(S.st.back());
    S.st.pop_back();
    for (u64 b : f.allocas) S.mem.erase(b);
    if (S.st.empty()) throw PathEnd{"end"};
    Frame &C = S.st.back();
    if (f.hookFrame) { return; }               // resume at C.ip unchanged
    Instruction *cs = f.callsite;
    if (!cs->getType()->isVoidTy()) setVal(S, C, cs, v);
    if (auto *II = dyn_cast<InvokeInst>(cs)) gotoBB(S, C, II->getNormalDest());
    else ++C.ip;
}

static bool inHook(State &S) { for (auto &f : S.st) if (f.hookFrame) return true; return false; }

static int orderKind(Instruction *I, int k) {      // +4 release, +8 acquire
    AtomicOrdering o = AtomicOrdering::NotAtomic;
    if (auto *L = dyn_cast<LoadInst>(I)) o = L->getOrdering();
    else if (auto *St = dyn_cast<StoreInst>(I)) o = St->getOrdering();
    else if (auto *A = dyn_cast<AtomicRMWInst>(I)) o = A->getOrdering();
    else if (auto *A = dyn_cast<AtomicCmpXchgInst>(I)) o = A->getSuccessOrdering();
    if (isReleaseOrStronger(o) && !isa<LoadInst>(I)) k |= 4;
    if (isAcquireOrStronger(o) && !isa<StoreInst>(I)) k |= 8;
    return k;
}
static bool runHook(State &S, const Val &addr, u64 sz, int kind) {
    if (S.hooks.empty() || !addr.isC || S.st.back().harness || inHook(S)) return false;
    for (auto &h : S.hooks) if (addr.c < h.hi && addr.c + sz > h.lo) {
        pushCall(S, h.fn, {addr, Val::C(64, sz), Val::C(32, kind)}, nullptr);
        S.st.back().hookFrame = true;
        return true;
    }
    return false;
}

static bool preHook(State &S, Instruction *I, const Val &p, u64 sz, int kind) {
    if (S.st.back().hookedAt == I) return false;
    size_t at = S.st.size() - 1;
    if (!runHook(S, p, sz, kind)) return false;
    S.st[at].hookedAt = I;
    return true;
}

static void doCall(State &S, CallBase *CB) {
    Frame &F = S.st.back();
    auto finish = [&](const Val &v) {
        Frame &F2 = S.st.back();
        if (!CB->getType()->isVoidTy()) setVal(S, F2, CB, v);
        if (auto *II = dyn_cast<InvokeInst>(CB)) gotoBB(S, F2, II->getNormalDest()); else ++F2.ip;
    };
    std::vector<Val> a;
    for (auto &U : CB->args()) a.push_back(getVal(S, F, U.get()));
    if (CB->isInlineAsm()) {
        auto *IA = cast<InlineAsm>(CB->getCalledOperand());
        std::string t = IA->getAsmString(); asmSeen.insert(t.substr(0, 40));
        int kind = t.find("sfence") != std::string::npos ? 1 : t.find("lfence") != std::string::npos ? 2 : t.find("mfence") != std::string::npos ? 3 : 0;
        if (t.find("rdtsc") != std::string::npos) {
            if (S.tscFn && S.st.back().hookedAt != CB && !inHook(S)) {
                S.st.back().hookedAt = CB; pushCall(S, S.tscFn, {}, nullptr); S.st.back().hookFrame = true; return;
            }
            S.st.back().hookedAt = nullptr;
            Val lo = Val::S(freshBV(32, "tsclo")), hi = Val::S(freshBV(32, "tschi"));
            if (S.tscAddr) { Val v = loadMem(S, Val::C(64, S.tscAddr), 8); lo = extTo(v, 32, false); hi = v.isC ? Val::C(32, v.c >> 32) : Val::Simp(v.ex().extract(63, 32)); }
            if (CB->getType()->isStructTy() && CB->getType()->getStructNumElements() == 2) {
                lo = extTo(lo, bitsOf(CB->getType()->getStructElementType(0)), false); hi = extTo(hi, bitsOf(CB->getType()->getStructElementType(1)), false); finish(Val::Agg({lo, hi})); return; }
            throw Unsup{"rdtsc form"};
        }
        if (!CB->getType()->isVoidTy()) { finish(undefOf(CB->getType())); return; }
        finish(Val());
        if (S.fenceFn && !inHook(S)) { pushCall(S, S.fenceFn, {Val::C(32, kind)}, nullptr); S.st.back().hookFrame = true; }
        return;
    }
    Function *Fn = CB->getCalledFunction();
    if (!Fn) {
        Value *cv = CB->getCalledOperand()->stripPointerCasts();
        Fn = dyn_cast<Function>(cv);
        if (!Fn) if (auto *GA = dyn_cast<GlobalAlias>(cv)) Fn = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
        if (!Fn) {
            Val p = concretize(S, getVal(S, F, CB->getCalledOperand()));
            auto it = faddr.find(p.c);
            if (it == faddr.end()) violateNow(S, "memory", "call of invalid function pointer");
            Fn = it->second;
        }
    }
    if (Fn->isIntrinsic()) {
        Val r;
        if (intrinsic(S, F, CB, Fn, a, r)) { finish(r); return; }
        throw Unsup{"intrinsic " + Fn->getName().str()};
    }
    if (Function *R = matchRepl(S, Fn)) { if (R != Fn && R != F.F) { pushCall(S, R, a, CB); return; } }
    if (!Fn->isDeclaration()) {
        // byval args: copy
        for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) {
            u64 sz = allocSize(CB->getParamByValType(i));
            OP o = newObj(S, sz, "byval", 1);
            memCopy(S, Val::C(64, o->base), a[i], Val::C(64, sz), false);
            a[i] = Val::C(64, o->base);
        }
        std::vector<u64> bv; for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) bv.push_back(a[i].c);
        pushCall(S, Fn, a, CB); for (u64 b : bv) S.st.back().allocas.push_back(b); return;
    }
    Val r;
    if (external(S, F, CB, Fn, a, r)) { finish(r); return; }
    throw Unsup{"external function " + demC(Fn)};
}

static void step(State &S) {
    Frame &F = S.st.back();
    Instruction *I = &*F.ip;
    auto V = [&](unsigned i) { return getVal(S, F, I->getOperand(i)); };
    switch (I->getOpcode()) {
    case Instruction::Ret: {
        Val v; if (I->getNumOperands()) v = V(0);
        doRet(S, v); return;
    }
    case Instruction::Br: {
        auto *B = cast<BranchInst>(I);
        if (B->isUnconditional()) { gotoBB(S, F, B->getSuccessor(0)); return; }
        Val c = V(0);
        if (c.isC) { gotoBB(S, F, B->getSuccessor(c.c ? 0 : 1)); return; }
        E b = asBool(c).simplify();
        throw Fork{b};
    }
    case Instruction::Switch: {
        auto *W = cast<SwitchInst>(I);
        Val c = V(0);
        if (c.isC) {
            for (auto &cs : W->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { gotoBB(S, F, cs.getCaseSuccessor()); return; }
            gotoBB(S, F, W->getDefaultDest()); return;
        }
        // fork on each case
        for (auto &cs : W->cases()) {
            E e = c.ex() == Z->bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.w);
            E s = e.simplify(); if (s.is_false()) continue;
            int v = valid(S, s); if (v == 1) { gotoBB(S, F, cs.getCaseSuccessor()); return; }
            if (feasible(S, s)) throw Fork{s};
        }
        gotoBB(S, F, W->getDefaultDest()); return;
    }
    case Instruction::Unreachable: violateNow(S, "abort", "unreachable code reached (undefined behaviour)");
    case Instruction::Alloca: {
        auto *A = cast<AllocaInst>(I);
        Val n = V(0); n = concretize(S, n);
        OP o = newObj(S, allocSize(A->getAllocatedType()) * n.c, A->getName().str(), 1);
        o->isStack = true; u64 b = o->base;
        F.allocas.push_back(b);
        setVal(S, F, I, Val::C(64, b)); break;
    }
    case Instruction::Load: {
        Val p = V(0); u64 sz = storeSize(I->getType());
        if (preHook(S, I, p, sz, orderKind(I, 0))) return;
        Val raw = loadMem(S, p, sz);
        setVal(S, S.st.back(), I, typed(I->getType(), raw)); S.st.back().hookedAt = nullptr; break;
    }
    case Instruction::Store: {
        Val p = V(1), v = V(0); Type *T = I->getOperand(0)->getType(); u64 sz = storeSize(T);
        if (preHook(S, I, p, sz, orderKind(I, 1))) return;
        storeTyped(S, p, T, v);
        ++S.st.back().ip; S.st.back().hookedAt = nullptr;
        runHook(S, p, sz, 2);
        return;
    }
    case Instruction::GetElementPtr: {
        Val p = V(0);
        if (p.agg) throw Unsup{"vector gep"};
        for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
            Val idx = getVal(S, F, it.getOperand());
            if (StructType *ST = it.getStructTypeOrNull()) {
                p = add64(p, Val::C(64, DL->getStructLayout(ST)->getElementOffset(idx.c).getFixedValue()));
            } else {
                u64 es = allocSize(it.getIndexedType());
                Val i64 = toI64(idx);
                if (i64.isC) p = add64(p, Val::C(64, i64.c * es));
                else p = Val::Simp(p.ex() + i64.ex() * Z->bv_val((uint64_t)es, 64));
            }
        }
        setVal(S, F, I, p); break;
    }
    case Instruction::ICmp: setVal(S, F, I, icmp(cast<ICmpInst>(I)->getPredicate(), V(0), V(1))); break;
    case Instruction::FCmp: {
        Val a = V(0), b = V(1); auto p = cast<FCmpInst>(I)->getPredicate();
        if (a.isC && b.isC && (a.w == 64 || a.w == 32)) {
            double x = a.w == 64 ? asD(a) : asF(a), y = a.w == 64 ? asD(b) : asF(b); bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (p) {
            case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_UNE: r = !(x == y); break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
            setVal(S, F, I, Val::C(1, r)); break;
        }
        setVal(S, F, I, uf("fp.cmp" + std::to_string((int)p), {a, b}, 1)); break;
    }
    case Instruction::FAdd: setVal(S, F, I, fbin(I->getOpcode(), V(0), V(1), "add")); break;
    case Instruction::FSub: setVal(S, F, I, fbin(I->getOpcode(), V(0), V(1), "sub")); break;
    case Instruction::FMul: setVal(S, F, I, fbin(I->getOpcode(), V(0), V(1), "mul")); break;
    case Instruction::FDiv: setVal(S, F, I, fbin(I->getOpcode(), V(0), V(1), "div")); break;
    case Instruction::FRem: setVal(S, F, I, fbin(I->getOpcode(), V(0), V(1), "rem")); break;
    case Instruction::FNeg: { Val a = V(0); setVal(S, F, I, a.isC ? Val::C(a.w, a.c ^ (1ULL << (a.w - 1))) : Val::Simp(z3::concat(~a.ex().extract(a.w - 1, a.w - 1), a.ex().extract(a.w - 2, 0)))); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
        setVal(S, F, I, fcast(I->getOpcode(), V(0), bitsOf(I->getType()))); break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val a = V(0);
        if (a.agg) { std::vector<Val> r; unsigned w = bitsOf(cast<FixedVectorType>(I->getType())->getElementType()); for (auto &x : *a.agg) r.push_back(extTo(x, w, false)); setVal(S, F, I, Val::Agg(r)); break; }
        setVal(S, F, I, extTo(a, bitsOf(I->getType()), false)); break;
    }
    case Instruction::SExt: { Val a = V(0); if (a.agg) throw Unsup{"vec sext"}; setVal(S, F, I, extTo(a, bitsOf(I->getType()), true)); break; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
        Val a = V(0);
        Type *ST = I->getOperand(0)->getType(), *DT = I->getType();
        if (ST->isVectorTy() != DT->isVectorTy()) {
            if (ST->isVectorTy()) { std::vector<Val> t = *a.agg; E x = t.back().ex(); for (int i = (int)t.size() - 2; i >= 0; --i) x = z3::concat(x, t[i].ex()); a = Val::Simp(x); }
            else a = typed(DT, a);
        }
        setVal(S, F, I, a); break;
    }
    case Instruction::Select: {
        Val c = V(0);
        if (c.agg) throw Unsup{"vec select"};
        if (c.isC) { setVal(S, F, I, V(c.c ? 1 : 2)); break; }
        Val x = V(1), y = V(2);
        if (I->getType()->isPointerTy() || x.agg) throw Fork{asBool(c)};
        setVal(S, F, I, Val::Simp(z3::ite(asBool(c), x.ex(), y.ex()))); break;
    }
    case Instruction::PHI: throw Unsup{"phi at step"};
    case Instruction::ExtractValue: {
        Val a = V(0); for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { Val t = (*a.agg)[ix]; a = t; }
        setVal(S, F, I, a); break;
    }
    case Instruction::InsertValue: {
        auto *IV = cast<InsertValueInst>(I);
        Val a = V(0), v = V(1);
        std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val &b, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return v;
            std::vector<Val> n = *b.agg; n[ix[0]] = ins(n[ix[0]], ix.drop_front()); return Val::Agg(n); };
        setVal(S, F, I, ins(a, IV->getIndices())); break;
    }
    case Instruction::ExtractElement: { Val a = V(0), i = concretize(S, V(1)); setVal(S, F, I, (*a.agg)[i.c]); break; }
    case Instruction::InsertElement: { Val a = V(0), i = concretize(S, V(2)); std::vector<Val> n = *a.agg; n[i.c] = V(1); setVal(S, F, I, Val::Agg(n)); break; }
    case Instruction::ShuffleVector: {
        auto *SV = cast<ShuffleVectorInst>(I); Val a = V(0), b = V(1); std::vector<Val> r; int n = a.agg->size();
        for (int m : SV->getShuffleMask()) r.push_back(m < 0 ? undefOf(cast<FixedVectorType>(SV->getType())->getElementType()) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
        setVal(S, F, I, Val::Agg(r)); break;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(S, cast<CallBase>(I)); return;
    case Instruction::Fence: { ++F.ip; if (S.fenceFn && !inHook(S)) {
        auto o = cast<FenceInst>(I)->getOrdering(); int k = o == AtomicOrdering::Release ? 1 : o == AtomicOrdering::Acquire ? 2 : 3;
        pushCall(S, S.fenceFn, {Val::C(32, k)}, nullptr); S.st.back().hookFrame = true; } return; }
    case Instruction::AtomicRMW: {
        auto *A = cast<AtomicRMWInst>(I); Val p = V(0), v = V(1); u64 sz = storeSize(I->getType());
        if (preHook(S, I, p, sz, orderKind(I, 1))) return;
        Val old = loadMem(S, p, sz), nv;
        switch (A->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(S, Instruction::Add, old, v, v.w); break;
        case AtomicRMWInst::Sub: nv = binop(S, Instruction::Sub, old, v, v.w); break;
        case AtomicRMWInst::And: nv = binop(S, Instruction::And, old, v, v.w); break;
        case AtomicRMWInst::Or: nv = binop(S, Instruction::Or, old, v, v.w); break;
        default: throw Unsup{"atomicrmw"}; }
        storeMem(S, p, nv); setVal(S, F, I, old); ++S.st.back().ip; S.st.back().hookedAt = nullptr; runHook(S, p, sz, 2); return;
    }
    case Instruction::AtomicCmpXchg: {
        Val p = V(0), cmp = V(1), nv = V(2); u64 sz = storeSize(I->getOperand(1)->getType());
        if (preHook(S, I, p, sz, orderKind(I, 1))) return;
        Val old = loadMem(S, p, sz); Val eq = icmp(CmpInst::ICMP_EQ, old, cmp);
        if (!eq.isC) throw Fork{asBool(eq)};
        if (eq.c) storeMem(S, p, nv);
        setVal(S, F, I, Val::Agg({old, eq})); ++S.st.back().ip; S.st.back().hookedAt = nullptr; runHook(S, p, sz, 2); return;
    }
    case Instruction::LandingPad: case Instruction::Resume: throw Unsup{"exception handling reached"};
    default:
        if (I->isBinaryOp()) { setVal(S, F, I, binop(S, I->getOpcode(), V(0), V(1), I->getType()->isVectorTy() ? 0 : bitsOf(I->getType()))); break; }
        throw Unsup{std::string("instruction ") + I->getOpcodeName()};
    }
    ++S.st.back().ip;
}

static bool outOfTime() { return deadline && nowS() > deadline; }
#include "loops.inc"

// ---------------------------------------------------------------- exploration

static std::map<std::string, long> forkStat;
static void explore(State init) {
    std::deque<State> work; work.push_back(std::move(init));
    while (!work.empty()) {
        if (outOfTime()) { unsupported.push_back("time limit: " + std::to_string(work.size()) + " open paths"); return; }
        bool bfs = work.front().compact;
        State S = std::move(bfs ? work.front() : work.back()); if (bfs) work.pop_front(); else work.pop_back();
        if (!trialDepth) nPaths++;
        try {
            while (true) {
                if ((++S.steps & 1023) == 0 && outOfTime()) { unsupported.push_back("time limit inside path, open paths " + std::to_string(work.size() + 1)); return; }
                if (S.steps > optMaxSteps) throw Unsup{"step limit"};
                try {
                    curS = &S;
                    if (!S.cutNames.empty() && (S.st.back().arrived || !S.cuts.empty()) && maybeCut(S, work)) throw PathEnd{"cut"};
                    step(S);
                } catch (Jumped &) {
                } catch (Choose &ch) {
                    auto take = [&](State &T, unsigned v) {
                        Frame &F = T.st.back(); auto *CB = cast<CallBase>(&*F.ip);
                        T.inputs.push_back({ch.name, 0, 64, std::nullopt, 0, v});
                        setVal(T, F, CB, Val::C(bitsOf(CB->getType()), v));
                        if (auto *II = dyn_cast<InvokeInst>(CB)) gotoBB(T, F, II->getNormalDest()); else ++F.ip;
                    };
                    for (unsigned v = ch.n; v-- > 1; ) { State S2 = S; take(S2, v); work.push_back(std::move(S2)); }
                    take(S, 0);
                } catch (Fork &f) {
                    E c = f.cond.simplify();
                    if (c.is_true() || c.is_false()) { 
                        // decided syntactically after simplification: follow
                    }
                    bool a = feasible(S, c), b = a ? feasible(S, !c) : true;
                    if (!a && S.pc.size() && !feasible(S, !c)) throw PathEnd{"infeasible"};
                    bool isBr = isa<BranchInst>(&*S.st.back().ip);
                    auto take = [&](State &T, bool pos) {
                        if (!(c.is_true() || c.is_false())) T.pc.push_back(pos ? c : !c);
                        if (isBr) { Frame &F = T.st.back(); auto *B = cast<BranchInst>(&*F.ip); gotoBB(T, F, B->getSuccessor(pos ? 0 : 1)); }
                        else if (auto *SI = dyn_cast<SelectInst>(&*T.st.back().ip)) { Frame &F = T.st.back(); setVal(T, F, SI, getVal(T, F, SI->getOperand(pos ? 1 : 2))); ++F.ip; }
                    };
                    if (a && b) {
                        forkStat[locOf(S)]++;
                        State S2 = S;
                        take(S2, false);
                        work.push_back(std::move(S2));
                        take(S, true);
                    } else take(S, a);
                }
            }
        } catch (PathEnd &p) {
            if (trialDepth) continue;
            if (p.why == "end") nPathsEnd++;
            if (p.why == "infeasible") nInfeasible++;
        } catch (Unsup &u) {
            std::string s = u.what + " @ " + locOf(S);
            if (verbose) { for (auto &l : stackOf(S)) fprintf(stderr, "   %s\n", l.c_str()); }
            bool seen = false; for (auto &x : unsupported) if (x == s) seen = true;
            if (!seen) unsupported.push_back(s);
        } catch (z3::exception &z) {
            unsupported.push_back(std::string("z3 exception ") + z.msg() + " @ " + locOf(S));
        } catch (std::out_of_range &z) {
            unsupported.push_back(std::string("internal out_of_range @ ") + locOf(S));
        }
    }
}

static void exploreTrial(State init) { explore(std::move(init)); }

static void jstr(std::ostream &o, const std::string &s) { o << '"' << jesc(s) << '"'; }

// ---------------------------------------------------------------- native hooks
// Puts the same callbacks (shared accesses, fences, rdtsc) into the module, so that a
// schedule found by the verifier can be replayed natively.
static int instrument(const std::string &outf) {
    auto &C = M->getContext();
    auto *P = PointerType::get(C, 0); auto *I64 = Type::getInt64Ty(C); auto *I32 = Type::getInt32Ty(C); auto *V = Type::getVoidTy(C);
    auto acc = M->getOrInsertFunction("__vf_access", V, P, I64, I32);
    auto fen = M->getOrInsertFunction("__vf_fence", V, I32);
    auto tsc = M->getOrInsertFunction("__vf_rdtsc", I64);
    // callees replaced by their contract: vf_replace("prefix", f) redirects every call made outside the contract
    auto rep = M->getOrInsertFunction("__vf_repl", P, P);
    std::set<std::string> pre;
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (G->getName() == "vf_replace") {
        StringRef t; if (getConstantStringInfo(CB->getArgOperand(0), t)) pre.insert(t.str()); }
    if (!pre.empty()) {
        std::vector<std::pair<CallBase*, std::string>> sites;
        for (auto &F : *M) if (!F.isDeclaration() && !isHarnessFn(&F)) for (auto &B : F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) {
            std::string d = demC(G); for (auto &x : pre) if (replNames(d, x)) { sites.push_back({CB, x}); break; } }
        for (auto &sp : sites) {
            CallBase *CB = sp.first; IRBuilder<> bld(CB);
            Value *nm = bld.CreateGlobalStringPtr(sp.second);
            Value *r = bld.CreateCall(rep, {nm});
            Value *ok = bld.CreateICmpNE(r, ConstantPointerNull::get(P));
            CB->setCalledOperand(bld.CreateSelect(ok, r, CB->getCalledOperand()));
        }
    }
    for (auto &F : *M) {
        if (F.isDeclaration() || isHarnessFn(&F)) continue;
        std::vector<Instruction*> w;
        for (auto &B : F) for (auto &I : B) w.push_back(&I);
        for (auto *I : w) {
            auto call = [&](Instruction *at, Value *ptr, Type *T, int k) {
                CallInst::Create(acc, {ptr, ConstantInt::get(I64, storeSize(T)), ConstantInt::get(I32, k)}, "", at)->setDebugLoc(I->getDebugLoc()); };
            if (auto *L = dyn_cast<LoadInst>(I)) { if (!isa<AllocaInst>(L->getPointerOperand())) call(I, L->getPointerOperand(), L->getType(), orderKind(I, 0)); }
            else if (auto *St = dyn_cast<StoreInst>(I)) { if (!isa<AllocaInst>(St->getPointerOperand())) { call(I, St->getPointerOperand(), St->getValueOperand()->getType(), orderKind(I, 1)); call(I->getNextNode(), St->getPointerOperand(), St->getValueOperand()->getType(), 2); } }
            else if (auto *A = dyn_cast<AtomicRMWInst>(I)) { call(I, A->getPointerOperand(), A->getType(), orderKind(I, 1)); call(I->getNextNode(), A->getPointerOperand(), A->getType(), 2); }
            else if (auto *A = dyn_cast<AtomicCmpXchgInst>(I)) { call(I, A->getPointerOperand(), A->getCompareOperand()->getType(), orderKind(I, 1)); call(I->getNextNode(), A->getPointerOperand(), A->getCompareOperand()->getType(), 2); }
            else if (auto *Fe = dyn_cast<FenceInst>(I)) { auto o = Fe->getOrdering(); int k = o == AtomicOrdering::Release ? 1 : o == AtomicOrdering::Acquire ? 2 : 3;
                CallInst::Create(fen, {ConstantInt::get(I32, k)}, "", I->getNextNode())->setDebugLoc(I->getDebugLoc()); }
            else if (auto *CB = dyn_cast<CallInst>(I)) if (CB->isInlineAsm()) {
                std::string t = cast<InlineAsm>(CB->getCalledOperand())->getAsmString();
                if (t.find("rdtsc") != std::string::npos && CB->getType()->isStructTy()) {
                    auto *v = CallInst::Create(tsc, {}, "", I); v->setDebugLoc(I->getDebugLoc());
                    auto *ST = cast<StructType>(CB->getType());
                    Value *hi = BinaryOperator::CreateLShr(v, ConstantInt::get(I64, 32), "", I);
                    Value *lo = BinaryOperator::CreateAnd(v, ConstantInt::get(I64, 0xffffffffu), "", I);
                    Value *lt = CastInst::CreateIntegerCast(lo, ST->getElementType(0), false, "", I), *ht = CastInst::CreateIntegerCast(hi, ST->getElementType(1), false, "", I);
                    Value *a = InsertValueInst::Create(PoisonValue::get(ST), lt, {0}, "", I); a = InsertValueInst::Create(a, ht, {1}, "", I);
                    CB->replaceAllUsesWith(a); CB->eraseFromParent();
                } else if (CB->getType()->isVoidTy()) {
                    int kind = t.find("sfence") != std::string::npos ? 1 : t.find("lfence") != std::string::npos ? 2 : t.find("mfence") != std::string::npos ? 3 : 0;
                    CallInst::Create(fen, {ConstantInt::get(I32, kind)}, "", I->getNextNode())->setDebugLoc(I->getDebugLoc());
                }
            }
        }
    }
    std::error_code ec; raw_fd_ostream os(outf, ec); if (ec) return 3;
    WriteBitcodeToFile(*M, os);
    return 0;
}

int main(int argc, char **argv) {
    std::string instr, bc, out, entry; double tl = 300;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--entry") entry = argv[++i];
        else if (a == "--time") tl = atof(argv[++i]);
        else if (a == "--smt-timeout") optTimeout = atoi(argv[++i]);
        else if (a == "--dump") { dumpDir = argv[++i]; dumpMax = atoi(argv[++i]); }
        else if (a == "--stop-first") stopFirst = true;
        else if (a == "-v") verbose = true;
        else if (a == "--instrument") instr = argv[++i];
        else bc = a;
    }
    t0 = nowS(); deadline = t0 + tl;
    LLVMContext ctx; LC = &ctx; SMDiagnostic err;
    auto m = parseIRFile(bc, err, ctx);
    if (!m) { err.print("vfe", errs()); return 3; }
    M = m.get(); DL = &M->getDataLayout();
    if (!instr.empty()) return instrument(instr);
    z3::context zc; Z = &zc;
    z3::solver is(zc); inc = &is;
    { z3::params p(zc); p.set("timeout", optTimeout); is.set(p); }

    State S;
    u64 fa = 0x1000;
    for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    std::vector<GlobalVariable*> gs;
    for (auto &G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        u64 sz = allocSize(G.getValueType());
        OP o = newObj(S, sz, G.getName().str(), 0);
        gaddr[&G] = o->base; gs.push_back(&G);
    }
    std::string fatal;
    try {
        for (auto *G : gs) if (G->hasInitializer()) initObj(S, gaddr[G], G->getInitializer());
        for (auto *G : gs) if (G->isConstant() && G->hasInitializer()) { OP o = S.mem.m[gaddr[G]]; o->ro = true; Mem::fixed[o->base] = o; S.mem.m.erase(o->base); }
        if (auto *G = M->getGlobalVariable("vf_tsc_value")) S.tscAddr = gaddr[G];
    } catch (Unsup &u) { fatal = u.what; }
    nOblig = nDischarged = nTriv = 0; dischargedBy.clear();
    Function *F = M->getFunction(entry);
    if (!F) fatal = "no entry " + entry;
    if (fatal.empty()) {
        // a global-constructor list first, then the entry, by stacking frames
        pushCall(S, F, {}, nullptr);
        if (auto *CT = M->getGlobalVariable("llvm.global_ctors")) if (M->getFunction("vf_want_ctors")) {
            auto *CA = dyn_cast<ConstantArray>(CT->getInitializer());
            if (CA) for (int i = (int)CA->getNumOperands() - 1; i >= 0; --i) {
                auto *fn = dyn_cast<Function>(CA->getOperand(i)->getOperand(1));
                if (fn) { pushCall(S, fn, {}, nullptr); S.st.back().hookFrame = true; }
            }
        }
        try { explore(std::move(S)); } catch (std::runtime_error &e) { if (std::string(e.what()) != "stop-first") fatal = e.what(); }
    }
    std::ofstream of; std::ostream *o = &std::cout;
    if (!out.empty()) { of.open(out); o = &of; }
    auto list = [&](const char *k, auto &c) { *o << "  \"" << k << "\": ["; bool f = true; for (auto &x : c) { if (!f) *o << ", "; f = false; jstr(*o, x); } *o << "],\n"; };
    *o << "{\n  \"entry\": \"" << entry << "\",\n";
    *o << "  \"fatal\": "; jstr(*o, fatal); *o << ",\n";
    if (prof) for (auto &q : profBy) fprintf(stderr, "%8.1fs %6d %s\n", q.second.second, q.second.first, q.first.c_str());
    *o << "  \"paths\": " << nPaths << ", \"paths_completed\": " << nPathsEnd << ", \"bounded_cutoffs\": " << nBounded << ", \"closure_states\": " << nMemoStates << ", \"closure_hits\": " << nMemoHits << ",\n";
    *o << "  \"obligations\": " << nOblig << ", \"discharged\": " << nDischarged << ", \"syntactic\": " << nTriv << ",\n";
    *o << "  \"queries\": " << nQueries << ", \"solver_s\": " << solverS << ", \"wall_s\": " << nowS() - t0 << ",\n";
    *o << "  \"by_kind\": {"; { bool f = true; for (auto &kv : dischargedBy) { if (!f) *o << ", "; f = false; jstr(*o, kv.first); *o << ": " << kv.second; } } *o << "},\n";
    *o << "  \"asserts\": {"; { bool f = true; for (auto &kv : assertSeen) { if (!f) *o << ", "; f = false; jstr(*o, kv.first); *o << ": " << kv.second; } } *o << "},\n";
    *o << "  \"covers\": {"; { bool f = true; for (auto &kv : covers) { if (!f) *o << ", "; f = false; jstr(*o, kv.first); *o << ": " << kv.second; } } *o << "},\n";
    list("functions", funcsRun); list("replaced_by_contract", replaced); list("loops_cut", loopCutDone);
    list("unsupported", unsupported); list("unknown", unknowns); list("asm", asmSeen);
    *o << "  \"forks\": {"; { std::vector<std::pair<long, std::string>> v; for (auto &kv : forkStat) v.push_back({kv.second, kv.first}); std::sort(v.rbegin(), v.rend()); bool f = true; int k = 0; for (auto &x : v) { if (k++ >= 12) break; if (!f) *o << ", "; f = false; jstr(*o, x.second); *o << ": " << x.first; } } *o << "},\n";
    *o << "  \"failures\": [";
    bool f = true;
    for (auto &x : failures) {
        if (!f) *o << ","; f = false;
        *o << "\n    {\"kind\": "; jstr(*o, x.kind); *o << ", \"label\": "; jstr(*o, x.label); *o << ", \"loc\": "; jstr(*o, x.loc);
        *o << ", \"stack\": ["; bool g = true; for (auto &s : x.stack) { if (!g) *o << ", "; g = false; jstr(*o, s); } *o << "], \"inputs\": "; jstr(*o, x.inputs); *o << "}";
    }
    *o << "\n  ]\n}\n";
    o->flush();
    _Exit(0);
}
