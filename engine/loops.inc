// ---------------------------------------------------------------- loop cutting
// A loop of a function named by vf_loop_cut is not unrolled.  On entry, everything the loop
// may change (phis of its header, memory it writes) is replaced by arbitrary values
// constrained by an inductive invariant, and one arbitrary iteration is verified; a path that
// returns to the header ends there, a path that leaves the loop goes on.  The invariant is
// the largest subset of a fixed candidate family that holds on entry and is preserved by
// every iteration (Houdini):  x == x0,  x-x0 == +-(y-y0),  pointer stays inside its object,
// x >= x0, x <= x0, x >= 0,  x <= y.
struct CutVar { PHINode *phi = nullptr; u64 base = 0, off = 0, size = 0; Val v0; unsigned w = 0; u64 ptrBase = 0; std::string name; };
struct Cand { enum T { CONST, DIFF, NEG, INB, UGE, ULE, SGE0, SGE, SLE, LE } t; int i, j; };
struct WriteInfo { std::map<u64, u64> cells; bool sym = false; std::vector<Val> lows; bool lowsInit = false; };
struct CutData {
    bool trial = true;
    size_t depth; BasicBlock *header; Loop *L;
    std::vector<State> back;
    std::map<u64, WriteInfo> writes;         // object base -> what the body writes
    Mem mem0;                  // objects at loop entry
    std::map<u64, std::vector<Val>> lowCand; // object -> offsets of pointers into it at loop entry
    std::vector<Cand> inv; std::vector<CutVar> vars;
};
struct LIHolder { DominatorTree DT; LoopInfo LI; LIHolder(Function &F) : DT(F), LI(DT) {} };
static std::unordered_map<Function*, std::unique_ptr<LIHolder>> liCache;
static LoopInfo &loopsOf(Function *F) { auto &p = liCache[F]; if (!p) p = std::make_unique<LIHolder>(*F); return p->LI; }
static void exploreTrial(State init);

static void logWriteImpl(State &S, const OP &o, const Val &off, const Val &n) {
    for (auto &c : S.cuts) {
        auto *d = (CutData*)c.data.get();
        if (!d->trial) continue;
        if (!d->mem0.count(o->base)) continue;
        auto &w = d->writes[o->base];
        if (!w.lowsInit) { w.lowsInit = true; auto it = d->lowCand.find(o->base); if (it != d->lowCand.end()) w.lows = it->second; }
        if (off.isC && n.isC) { if (n.c) { auto &z = w.cells[off.c]; z = std::max(z, n.c); } }
        else w.sym = true;
        if (!o->denseTop || o->symSize || w.sym || true) {
            std::vector<Val> keep;
            for (auto &l : w.lows) {
                bool ok = (l.isC && off.isC) ? l.c <= off.c : (n.isC && n.c == 0) || valid(S, z3::ule(l.ex(), off.ex())) == 1;
                if (ok) keep.push_back(l);
            }
            w.lows = keep;
        }
    }
}
static Val cutRead(State &S, const CutVar &v) {
    if (v.phi) return S.st[v.off].regs.empty() ? Val() : getVal(S, S.st[v.off], v.phi);
    OP *it = S.mem.find(v.base);
    if (!it) throw Unsup{"object of a loop variable disappeared"};
    return readMem(S, it->get(), Val::C(64, v.off), v.size);
}
static E candExpr(const std::vector<CutVar> &V, const std::vector<Val> &x, const Cand &c, State &S) {
    auto X = [&](int i) { return x[i].ex(); }; auto X0 = [&](int i) { return V[i].v0.ex(); };
    switch (c.t) {
    case Cand::CONST: return X(c.i) == X0(c.i);
    case Cand::DIFF: return X(c.i) - X0(c.i) == X(c.j) - X0(c.j);
    case Cand::NEG: return X(c.i) - X0(c.i) == X0(c.j) - X(c.j);
    case Cand::INB: { auto &o = S.mem.at(V[c.i].ptrBase); E sz = o->symSize ? *o->symSize : Z->bv_val((uint64_t)o->size, 64); return z3::ule(X(c.i) - Z->bv_val((uint64_t)o->base, 64), sz); }
    case Cand::UGE: return z3::uge(X(c.i), X0(c.i));
    case Cand::ULE: return z3::ule(X(c.i), X0(c.i));
    case Cand::SGE0: return X(c.i) >= Z->bv_val(0, V[c.i].w);
    case Cand::SGE: return X(c.i) >= X0(c.i);
    case Cand::SLE: return X(c.i) <= X0(c.i);
    case Cand::LE: return z3::ule(X(c.i), X(c.j));
    }
    return Z->bool_val(true);
}
static std::string candStr(const std::vector<CutVar> &V, const Cand &c) {
    std::string a = V[c.i].name, b = c.j >= 0 ? V[c.j].name : "";
    switch (c.t) {
    case Cand::CONST: return a + " unchanged"; case Cand::DIFF: return a + " moves with " + b; case Cand::NEG: return a + " moves against " + b;
    case Cand::INB: return a + " inside its object"; case Cand::UGE: return a + ">=initial"; case Cand::ULE: return a + "<=initial"; case Cand::SGE0: return a + ">=0";
    case Cand::SGE: return a + ">=s initial"; case Cand::SLE: return a + "<=s initial"; case Cand::LE: return a + "<=" + b; }
    return "";
}

// state with the loop's footprint arbitrary, under the candidates
static State buildCut(const State &S0, CutData &d) {
    State S = S0;
    auto &V = d.vars; size_t n = V.size();
    // memory first
    for (auto &kv : d.writes) {
        if (!S.mem.count(kv.first)) continue;
        auto &w = kv.second;
        if (!w.sym) continue;
        Obj *o = mut(S, kv.first); o->strLen.reset();
        auto base = std::make_shared<Node>(); base->k = Node::BASE_ARR; base->arr = freshArr("hv_" + o->name);
        if (w.lows.empty()) { o->top = base; o->denseTop = false; }
        else {
            Val lo = w.lows[0]; E sz = o->symSize ? *o->symSize : Z->bv_val((uint64_t)o->size, 64);
            auto nd = std::make_shared<Node>(); nd->k = Node::COPY; nd->src = base; nd->soff = lo; nd->off = lo; nd->len = Val::Simp(sz - lo.ex()); nd->prev = o->top;
            o->top = nd; o->denseTop = false;
        }
    }
    for (auto &kv : d.writes) if (!kv.second.sym) for (auto &c : kv.second.cells) {
        if (!S.mem.count(kv.first)) continue;
        for (u64 i = 0; i < c.second; ) { u64 k = std::min<u64>(8, c.second - i); writeMem(S, mut(S, kv.first), Val::C(64, c.first + i), Val::S(freshBV(8 * k, "hv"))); i += k; }
    }
    // variables
    std::vector<int> cst(n, 0), inb(n, 0); for (auto &c : d.inv) { if (c.t == Cand::CONST) cst[c.i] = 1; if (c.t == Cand::INB) inb[c.i] = 1; }
    std::vector<std::optional<Val>> x(n);
    for (size_t i = 0; i < n; i++) if (cst[i]) x[i] = V[i].v0;
    auto spread = [&](int r) {
        for (auto &c : d.inv) if (c.t == Cand::DIFF || c.t == Cand::NEG) {
            int o = c.i == r ? c.j : c.j == r ? c.i : -1; if (o < 0 || x[o]) continue;
            E dl = x[r]->ex() - V[r].v0.ex();
            x[o] = Val::Simp(c.t == Cand::DIFF ? V[o].v0.ex() + dl : V[o].v0.ex() - dl);
        }
    };
    for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < n; i++) if (!x[i]) {
        if (pass == 0) {
            if (!inb[i]) continue;
            auto &o = S.mem.at(V[i].ptrBase); unsigned k = 5; while (k < 40 && (o->size >> k)) k++;
            x[i] = Val::Simp(Z->bv_val((uint64_t)o->base, 64) + z3::zext(freshBV(k, "hvp"), 64 - k));
        } else x[i] = Val::S(freshBV(V[i].w, "hv"));
        spread((int)i);
    }
    std::vector<Val> xs; for (size_t i = 0; i < n; i++) xs.push_back(*x[i]);
    for (size_t i = 0; i < n; i++) {
        if (V[i].phi) setVal(S, S.st[d.depth], V[i].phi, xs[i]);
        else writeMem(S, mut(S, V[i].base), Val::C(64, V[i].off), xs[i]);
    }
    for (auto &c : d.inv) addPC(S, candExpr(V, xs, c, S));
    return S;
}


// returns true if the path was taken over (cut or ended)
static bool maybeCut(State &S, std::deque<State> &work) {
    // leave loops we are no longer in
    while (!S.cuts.empty()) {
        auto &c = S.cuts.back(); auto *d = (CutData*)c.data.get();
        bool out = S.st.size() <= d->depth || (S.st.size() == d->depth + 1 && !d->L->contains(S.st.back().bb));
        if (!out) break;
        if (d->trial) return true;
        S.cuts.pop_back();
    }
    Frame &F = S.st.back();
    if (!F.arrived) return false;
    F.arrived = false;
    if (F.harness) return false;
    bool named = false;
    for (auto &nm : S.cutNames) if (demC(F.F).compare(0, nm.size(), nm) == 0) named = true;
    if (!named) return false;
    Loop *L = loopsOf(F.F).getLoopFor(F.bb);
    if (!L || L->getHeader() != F.bb) return false;
    size_t depth = S.st.size() - 1;
    if (!S.cuts.empty()) {
        auto *d = (CutData*)S.cuts.back().data.get();
        if (d->depth == depth && d->header == F.bb) {      // back edge
            if (d->trial) { auto cp = d; State B = S; cp->back.push_back(std::move(B)); return true; }
            std::vector<Val> xs; for (auto &v : d->vars) xs.push_back(cutRead(S, v));
            for (auto &c : d->inv) oblige(S, candExpr(d->vars, xs, c, S), "invariant", "loop invariant preserved: " + candStr(d->vars, c));
            return true;
        }
    }
    // ---- new loop
    auto d = std::make_shared<CutData>();
    d->depth = depth; d->header = F.bb; d->L = L; d->mem0 = S.mem;
    State S0 = S;
    // pointers into objects at loop entry
    auto addPtr = [&](const Val &v) {
        if (v.w != 64 || v.agg) return; u64 c; OP o;
        if (v.isC) o = objById(S0, v.c); else { E e = v.ex(); if (constAddend(e, c)) o = objById(S0, c); }
        if (!o) return;
        Val off = v.isC ? Val::C(64, v.c - o->base) : Val::Simp(v.ex() - Z->bv_val((uint64_t)o->base, 64));
        auto &l = d->lowCand[o->base]; if (l.size() < 6) l.push_back(off);
    };
    for (auto &P : F.bb->phis()) if (P.getType()->isPointerTy()) addPtr(getVal(S0, F, &P));
    auto mkVars = [&]() {
        d->vars.clear();
        for (auto &P : L->getHeader()->phis()) {
            CutVar v; v.phi = &P; v.off = depth; v.v0 = getVal(S0, S0.st[depth], &P); if (v.v0.agg) throw Unsup{"aggregate phi in a cut loop"};
            v.w = v.v0.w; v.name = P.getName().str(); d->vars.push_back(v);
        }
        for (auto &kv : d->writes) {
            if (kv.second.sym) { if (!S0.mem.count(kv.first)) continue; continue; }
            u64 pend = 0; (void)pend;
            for (auto &c : kv.second.cells) {
                if (c.second != 1 && c.second != 2 && c.second != 4 && c.second != 8) continue;
                CutVar v; v.base = kv.first; v.off = c.first; v.size = c.second; v.v0 = cutRead(S0, v); v.w = 8 * c.second;
                v.name = S0.mem.at(kv.first)->name + "+" + std::to_string(c.first); d->vars.push_back(v);
                addPtr(v.v0);
            }
        }
        for (auto &v : d->vars) if (v.w == 64) { u64 c; OP o; if (v.v0.isC) { if (v.v0.c >> OBJ_SHIFT) o = objById(S0, v.v0.c); } else { E e = v.v0.ex(); if (constAddend(e, c)) o = objById(S0, c); } if (o) v.ptrBase = o->base; }
    };
    auto mkCands = [&]() {
        std::vector<Cand> r; auto &V = d->vars; int n = V.size();
        std::vector<Val> x0; for (auto &v : V) x0.push_back(v.v0);
        for (int i = 0; i < n; i++) {
            r.push_back({Cand::CONST, i, -1});
            if (V[i].ptrBase) r.push_back({Cand::INB, i, -1});
            if (V[i].w >= 32) { r.push_back({Cand::UGE, i, -1}); r.push_back({Cand::ULE, i, -1}); if (!V[i].ptrBase) { r.push_back({Cand::SGE0, i, -1}); r.push_back({Cand::SGE, i, -1}); r.push_back({Cand::SLE, i, -1}); } }
            for (int j = 0; j < n; j++) if (i != j && V[i].w == V[j].w && V[i].w >= 32) {
                if (j > i) { r.push_back({Cand::DIFF, i, j}); r.push_back({Cand::NEG, i, j}); }
                if (!!V[i].ptrBase == !!V[j].ptrBase && V[i].ptrBase == V[j].ptrBase) r.push_back({Cand::LE, i, j});
            }
        }
        std::vector<Cand> ok;
        for (auto &c : r) { E e = candExpr(V, x0, c, S0).simplify(); if (isTrueE(e) || valid(S0, e) == 1) ok.push_back(c); }
        d->inv = ok;
    };
    trialDepth++;
    struct TD { ~TD() { trialDepth--; } } td;
    mkVars(); mkCands();
    for (int round = 0; ; round++) {
        if (round > 40) throw Unsup{"loop invariant inference does not stabilise"};
        size_t wc = 0; for (auto &kv : d->writes) wc += kv.second.cells.size() + 1000 * kv.second.sym;
        std::map<u64, size_t> lowsBefore; for (auto &kv : d->writes) lowsBefore[kv.first] = kv.second.lows.size();
        State T = buildCut(S0, *d);
        T.cuts.push_back({(int)depth, d->header, d});
        if (S0.loopPre) { pushCall(T, S0.loopPre, {}, nullptr); T.st.back().hookFrame = true; }
        d->back.clear();
        exploreTrial(std::move(T));
        if (outOfTime()) throw Unsup{"time limit in loop invariant inference"};
        size_t wc2 = 0; for (auto &kv : d->writes) wc2 += kv.second.cells.size() + 1000 * kv.second.sym;
        bool lowsChanged = false; for (auto &kv : d->writes) if (lowsBefore.count(kv.first) && lowsBefore[kv.first] != kv.second.lows.size()) lowsChanged = true;
        if (wc2 != wc) { mkVars(); mkCands(); for (auto &kv : d->writes) { kv.second.lowsInit = true; auto it = d->lowCand.find(kv.first); kv.second.lows = it == d->lowCand.end() ? std::vector<Val>() : it->second; } continue; }
        bool dropped = lowsChanged;
        for (auto &B : d->back) {
            curS = &B;
            std::vector<Val> xs; for (auto &v : d->vars) xs.push_back(cutRead(B, v));
            for (int it = 0; it < 200; it++) {
                z3::expr_vector ev(*Z); std::vector<E> es; for (auto &c : d->inv) { es.push_back(candExpr(d->vars, xs, c, B).simplify()); ev.push_back(es.back()); }
                E all = z3::mk_and(ev).simplify(); if (isTrueE(all)) break;
                E neg = !all;
                auto r = queryPC(B.pc, &neg, true);
                if (r == z3::unsat) break;
                std::vector<Cand> keep; bool any = false;
                if (r == z3::sat) { z3::model m = *lastModel; for (size_t k = 0; k < es.size(); k++) { if (m.eval(es[k], true).simplify().is_false()) any = true; else keep.push_back(d->inv[k]); } }
                if (!any) { keep.clear(); for (size_t k = 0; k < es.size(); k++) { if (valid(B, es[k]) == 1) keep.push_back(d->inv[k]); } d->inv = keep; dropped = true; break; }
                d->inv = keep; dropped = true;
            }
        }
        if (verbose) fprintf(stderr, "[cut %s round %d] vars %zu cands %zu back %zu\n", locOf(S0).c_str(), round, d->vars.size(), d->inv.size(), d->back.size());
        if (!dropped) break;
    }
    d->back.clear();
    State Fs = buildCut(S0, *d);
    auto fd = std::make_shared<CutData>(*d); fd->trial = false;
    Fs.cuts.push_back({(int)depth, d->header, fd});
    if (S0.loopPre) { pushCall(Fs, S0.loopPre, {}, nullptr); Fs.st.back().hookFrame = true; }
    if (trialDepth == 1) {
        std::string s = demC(F.F).substr(0, 80) + " " + locOf(S0) + ":"; int k = 0;
        for (auto &c : d->inv) if (c.t != Cand::CONST && k++ < 14) s += " " + candStr(d->vars, c) + ";";
        loopCutDone.insert(s);
        if (verbose) fprintf(stderr, "[invariant] %s\n", s.c_str());
    }
    work.push_back(std::move(Fs));
    return true;
}
static void logWrite(State &S, const OP &o, const Val &off, const Val &n) { if (trialDepth) logWriteImpl(S, o, off, n); }
