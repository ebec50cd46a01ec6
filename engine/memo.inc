// ---------------------------------------------------------------- loop invariants by closure
// vf_memo(): the path ends here if an identical state was reached at a memo point before.  When
// everything the loop depends on is concrete, the set of recorded states is closed under the
// loop body: an inductive invariant, computed instead of written down, for any number of
// iterations.  Identical means: same call stack, same live registers, same memory, same
// path condition (128-bit digest of all of it).
struct Dig {
    u64 a = 0x9E3779B97F4A7C15ULL, b = 0xC2B2AE3D27D4EB4FULL;
    void add(u64 x) {
        a = (a ^ x) * 0xff51afd7ed558ccdULL; a ^= a >> 32;
        b = (b + x + 0x165667b19e3779f9ULL) * 0xc4ceb9fe1a85ec53ULL; b ^= b >> 29;
    }
};
static std::set<std::pair<u64, u64>> memoSeen; static u64 nMemoStates = 0, nMemoHits = 0, nMemoCanon = 0;
static std::vector<E> memoKeep; static std::set<unsigned> memoKept;
static void digE(Dig &d, const E &e) { unsigned id = Z3_get_ast_id(*Z, e); if (memoKept.insert(id).second) memoKeep.push_back(e); d.add(0xE0000000ULL | id); }
static void digV(Dig &d, const Val &v) {
    if (v.agg) { d.add(77); for (auto &x : *v.agg) digV(d, x); return; }
    d.add(v.w); if (v.isC) d.add(v.c); else if (v.e) digE(d, *v.e); else d.add(99);
}
static void digB(Dig &d, const ByteV &b) { if (b.src) { d.add(0x100 + b.idx); digE(d, *b.src); } else d.add(b.c); }
static void digN(Dig &d, const NP &n) {
    if (!n) { d.add(5); return; }
    d.add(0x200 + n->k);
    switch (n->k) {
    case Node::BASE_DENSE: {
        auto &b = n->dense->b; u64 acc = 0; unsigned k = 0;
        for (auto &x : b) { if (x.src) { digB(d, x); d.add(k); } else { acc = acc << 8 | x.c; if ((++k & 7) == 0) { d.add(acc); acc = 0; } } }
        d.add(acc); d.add(b.size()); break; }
    case Node::BASE_ARR: digE(d, *n->arr); break;
    case Node::BASE_CONST: d.add(n->cst); break;
    case Node::OVERLAY: { std::map<u64, const ByteV*> m; for (auto &kv : *n->ov) m[kv.first] = &kv.second; for (auto &kv : m) { d.add(kv.first); digB(d, *kv.second); } digN(d, n->prev); break; }
    case Node::STORE: case Node::FILL: case Node::COPY:
        digV(d, n->off); digV(d, n->len); if (n->k == Node::COPY) { digN(d, n->src); digV(d, n->soff); } else digV(d, n->val); digN(d, n->prev); break;
    }
}
// liveness of SSA values
struct Live { std::vector<const Value*> vals; std::unordered_map<const Value*, unsigned> ix; std::unordered_map<const BasicBlock*, std::vector<bool>> out; };
static const Live &liveOf(Function *F) {
    static std::unordered_map<Function*, std::unique_ptr<Live>> cache;
    auto &p = cache[F]; if (p) return *p;
    p = std::make_unique<Live>(); Live &L = *p;
    for (auto &A : F->args()) { L.ix[&A] = L.vals.size(); L.vals.push_back(&A); }
    for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) { L.ix[&I] = L.vals.size(); L.vals.push_back(&I); }
    size_t n = L.vals.size(); std::unordered_map<const BasicBlock*, std::vector<bool>> in;
    for (auto &B : *F) { L.out[&B].assign(n, false); in[&B].assign(n, false); }
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto it = po_begin(F); it != po_end(F); ++it) {
            BasicBlock *B = *it; std::vector<bool> o(n, false);
            for (auto *S : successors(B)) {
                auto &si = in[S]; for (size_t i = 0; i < n; i++) if (si[i]) o[i] = true;
                for (auto &P : S->phis()) { auto u = L.ix.find(P.getIncomingValueForBlock(B)); if (u != L.ix.end()) o[u->second] = true; }
            }
            std::vector<bool> v = o; L.out[B] = o;
            for (auto i = B->rbegin(); i != B->rend(); ++i) {
                auto d = L.ix.find(&*i); if (d != L.ix.end()) v[d->second] = false;
                if (isa<PHINode>(&*i)) continue;
                for (auto &U : i->operands()) { auto u = L.ix.find(U.get()); if (u != L.ix.end()) v[u->second] = true; }
            }
            if (v != in[B]) { in[B] = v; ch = true; }
        }
    }
    return L;
}

// Addresses handed out after vf_compact() are named by the order in which they are met, starting
// from the registers and the fixed objects: states that differ only in where such objects lie are
// one state.  Contents the walk does not understand make it give up (raw digest instead).
struct GiveUp {};
struct Canon {
    State &S; Dig d; std::unordered_map<u64, u64> id; std::vector<u64> todo; bool plain = true;
    Canon(State &s) : S(s) {}
    bool region(u64 v) { u64 k = v >> OBJ_SHIFT; return k >= S.compact && k < S.compact + (1u << 20); }
    u64 name(u64 k) { plain = false; auto it = id.emplace(k, id.size()); if (it.second) todo.push_back(k); return it.first->second; }
    // the value of a pointer to something freed is never relied on: all of them are one
    bool dead(u64 k) { OP *p = S.mem.find((k << OBJ_SHIFT) + BASE_LOW); return !p || !(*p)->alive; }
    void word(u64 v) { if (region(v)) { u64 k = v >> OBJ_SHIFT; if (dead(k)) { plain = false; d.add(0xDEADDEAD00000000ULL); return; } d.add(0xAAAA000000000000ULL + name(k)); d.add(v - ((k << OBJ_SHIFT) + BASE_LOW)); } else d.add(v); }
    void sym(const E &e) {
        static std::unordered_map<unsigned, std::pair<u64, u64>> nm;     // uninitialised bytes: whose, where
        unsigned a = Z3_get_ast_id(*Z, e); auto it = nm.find(a);
        if (it == nm.end()) {
            u64 k = 0, off = 0; digE(d, e);                              // keeps the expression alive
            if (e.is_const()) { k = ~0ULL; std::string n = e.decl().name().str(); if (n.rfind("un@", 0) == 0) { k = strtoull(n.c_str() + 3, nullptr, 10); auto p = n.find('+'); off = p == std::string::npos ? 1 : strtoull(n.c_str() + p + 1, nullptr, 10) + 2; } }
            it = nm.emplace(a, std::make_pair(k, off)).first;
            throw GiveUp{};                                              // once; the next visit knows it
        }
        if (!it->second.first) throw GiveUp{};
        if (it->second.first == ~0ULL) { digE(d, e); return; }           // a value nothing is known of
        d.add(0xBBBB000000000000ULL + name(it->second.first)); d.add(it->second.second);
    }
    void val(const Val &v) {
        if (v.agg) { d.add(77); for (auto &x : *v.agg) val(x); return; }
        d.add(v.w); if (v.isC) word(v.c); else if (v.e) sym(*v.e); else d.add(99);
    }
    void bytes(const ByteV *const *b, u64 n) {                           // n consecutive bytes from an aligned place
        if (n == 8) { u64 w = 0; bool c = true; for (int i = 7; i >= 0; --i) { if (b[i]->src) c = false; w = w << 8 | b[i]->c; } if (c) { word(w); return; } }
        for (u64 i = 0; i < n; i++) if (b[i]->src) { d.add(0x300 + b[i]->idx); sym(*b[i]->src); } else d.add(0x100 + b[i]->c);
    }
    void node(const NP &n) {
        if (!n) { d.add(5); return; }
        d.add(0x200 + n->k);
        switch (n->k) {
        case Node::BASE_DENSE: { auto &b = n->dense->b; const ByteV *g[8]; for (u64 i = 0; i < b.size(); i += 8) { u64 m = std::min<u64>(8, b.size() - i); for (u64 j = 0; j < m; j++) g[j] = &b[i + j]; bytes(g, m); } d.add(b.size()); break; }
        case Node::BASE_ARR: sym(*n->arr); break;
        case Node::BASE_CONST: d.add(n->cst); break;
        case Node::OVERLAY: {
            std::map<u64, const ByteV*> m; for (auto &kv : *n->ov) m[kv.first] = &kv.second;
            for (auto it = m.begin(); it != m.end();) {
                u64 o = it->first & ~7ULL; const ByteV *g[8]; u64 k = 0; d.add(it->first);
                while (it != m.end() && (it->first & ~7ULL) == o) { g[k++] = it->second; if (k < 8) d.add(it->first & 7); ++it; }
                bytes(g, k);
            }
            node(n->prev); break; }
        case Node::STORE: case Node::FILL:
            if (!n->off.isC || !n->len.isC) throw GiveUp{};
            d.add(n->off.c); d.add(n->len.c); val(n->val); node(n->prev); break;
        case Node::COPY: throw GiveUp{};
        }
    }
};
static void frameLive(Frame &F, bool top, std::vector<bool> &v) {
    const Live &L = liveOf(F.F);
    v = L.out.at(F.bb);
    for (auto i = F.bb->rbegin(); ; ++i) {
        auto x = L.ix.find(&*i);
        bool here = &*i == &*F.ip;
        if (x != L.ix.end()) v[x->second] = false;
        // the instruction at ip: still to be executed if its frame is on top, or a call whose operands are spent
        if (!here || top || F.hookedAt) for (auto &U : i->operands()) { auto u = L.ix.find(U.get()); if (u != L.ix.end()) v[u->second] = true; }
        if (here) break;
    }
}
static void frameHead(Dig &d, Frame &F) { d.add((u64)F.F); d.add((u64)F.bb); d.add((u64)&*F.ip); d.add(F.hookFrame); d.add(F.hookedAt ? 1 : 0); d.add((u64)F.callsite); }
static bool inRegion(State &S, u64 v) { u64 k = v >> OBJ_SHIFT; return k >= S.compact && k < S.compact + (1u << 20); }
static bool canonical(State &S, Dig &out) {
    if (!S.compact || !S.pc.empty()) return false;
    try {
        Canon C(S);
        for (size_t i = 0; i < S.st.size(); i++) {
            Frame &F = S.st[i]; frameHead(C.d, F);
            std::vector<bool> v; frameLive(F, i + 1 == S.st.size(), v);
            auto &sl = slotMap(F.F); const Live &L = liveOf(F.F);
            for (size_t k = 0; k < v.size(); k++) if (v[k]) { C.d.add(k); C.val(F.regs[sl.at(L.vals[k])]); }
            for (u64 a : F.allocas) C.word(a);
        }
        for (auto &kv : S.mem.m) {
            Obj *o = kv.second.get();
            if (o->ro || !o->alive || inRegion(S, o->base)) continue;
            if (o->symSize) return false;
            C.d.add(o->base);
            if (o->digOk && o->digPlain) { C.d.add(o->dig[0]); C.d.add(o->dig[1]); continue; }
            if (!o->digOk) {                              // contents without such addresses: digest once
                Canon P(S); P.node(o->top); o->dig[0] = P.d.a; o->dig[1] = P.d.b; o->digPlain = P.plain; o->digOk = true;
                if (P.plain) { C.d.add(o->dig[0]); C.d.add(o->dig[1]); continue; }
            }
            C.node(o->top);
        }
        for (size_t i = 0; i < C.todo.size(); i++) {
            OP *p = S.mem.find((C.todo[i] << OBJ_SHIFT) + BASE_LOW);
            if (!p) { C.d.add(0xDEAD); continue; }
            Obj *o = p->get(); if (o->symSize) return false;
            C.d.add(0xCCCC000000000000ULL + i); C.d.add(o->size); C.d.add(o->alive); C.d.add(o->isStack); C.d.add(o->heap); C.node(o->top);
        }
        out = C.d; return true;
    } catch (GiveUp &) { return false; }
}
static void digFrame(Dig &d, Frame &F, bool top) {
    frameHead(d, F);
    std::vector<bool> v; frameLive(F, top, v);
    auto &sl = slotMap(F.F); const Live &L = liveOf(F.F);
    for (size_t k = 0; k < v.size(); k++) if (v[k]) { d.add(k); digV(d, F.regs[sl.at(L.vals[k])]); }
    for (u64 a : F.allocas) d.add(a);
}
// VF_MEMOSTAT=1: how many different values each part of the recorded states takes
static std::map<std::string, std::set<u64>> memoStat;
static bool memoHit(State &S) {
    Dig d; static bool stat = getenv("VF_MEMOSTAT");
    if (canonical(S, d)) { d.add(1); nMemoCanon++; }
    else {
    d = Dig();
    for (size_t i = 0; i < S.st.size(); i++) digFrame(d, S.st[i], i + 1 == S.st.size());
    for (auto &kv : S.mem.m) {
        Obj *o = kv.second.get();
        if (o->ro || !o->alive) continue;
        if (!o->digRaw) { Dig t; t.add(o->base); t.add(o->size); if (o->symSize) digE(t, *o->symSize); digN(t, o->top); o->raw[0] = t.a; o->raw[1] = t.b; o->digRaw = true; }
        d.add(o->raw[0]); d.add(o->raw[1]);
    }
    }
    for (auto &e : S.pc) digE(d, e);
    for (auto &h : S.hooks) { d.add(h.lo); d.add(h.hi); d.add((u64)h.fn); }
    for (auto &r : S.repl) d.add((u64)r.second);
    bool isNew = memoSeen.insert({d.a, d.b}).second;
    if (stat && isNew) {
        for (size_t i = 0; i < S.st.size(); i++) { Dig t; digFrame(t, S.st[i], i + 1 == S.st.size()); memoStat["frame " + std::to_string(i) + " " + S.st[i].F->getName().str()].insert(t.a); }
        for (auto &kv : S.mem.m) { Obj *o = kv.second.get(); if (!o->ro && o->alive) memoStat["object " + o->name + " " + std::to_string(o->base >> OBJ_SHIFT) + " size " + std::to_string(o->size)].insert(o->digOk ? o->dig[0] : o->raw[0]); }
        memoStat["objects"].insert(S.mem.m.size()); memoStat["hooks"].insert(S.hooks.size()); memoStat["pc"].insert(S.pc.size());
        if (nMemoStates % 5000 == 4999) { for (auto &x : memoStat) if (x.second.size() > 1) errs() << x.second.size() << "\t" << x.first << "\n"; errs() << "--\n"; }
    }
    if (isNew) { nMemoStates++; if (stat && nMemoStates % 1000 == 0) errs() << nMemoStates << " states " << nMemoHits << " hits " << nMemoCanon << " canonical\n"; return false; }
    nMemoHits++; return true;
}
