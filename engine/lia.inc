// ---------------------------------------------------------------- integer layer
// Exact translation of the bit-vector constraints into linear integer arithmetic where
// that is possible (sums modulo 2^w get an explicit quotient); every other term becomes
// an unconstrained integer of its width.  The translation only ever forgets facts, so an
// "unsat" here is an "unsat" of the original.  Used when bit-blasting runs out of time.
struct Lia {
    z3::context &c; z3::solver s;
    std::unordered_map<unsigned, E> memo, bmemo;
    std::vector<E> keep;            // keep asts alive (ids are reused otherwise)
    int fresh = 0;
    typedef __int128 I; struct B { I lo, hi; };
    std::unordered_map<unsigned, B> bnd;         // bounds of translated terms (by original ast id)
    static I p2(unsigned w) { return (I)1 << (w > 100 ? 100 : w); }
    B boundOf(const E &x) { auto it = bnd.find(x.id()); if (it != bnd.end()) return it->second; return B{0, p2(x.get_sort().bv_size()) - 1}; }
    B linBound(const E &a) {
        unsigned w = a.get_sort().bv_size();
        if (a.is_numeral()) { u64 v = 0; a.is_numeral_u64(v); I t = v; if (w <= 64 && (v >> (w - 1))) t -= p2(w); return B{t, t}; }
        if (a.is_app() && a.decl().decl_kind() == Z3_OP_BMUL && a.num_args() == 2) for (int k = 0; k < 2; k++) if (a.arg(k).is_numeral()) {
            u64 v = 0; a.arg(k).is_numeral_u64(v); I t = v; if (w <= 64 && (v >> (w - 1))) t -= p2(w);
            if (t > p2(30) || t < -p2(30)) return B{-p2(100), p2(100)};
            B b = boundOf(a.arg(1 - k)); I x1 = t * b.lo, x2 = t * b.hi; return B{std::min(x1, x2), std::max(x1, x2)}; }
        return boundOf(a);
    }
    E modB(const E &sum, unsigned w, B b, const E &x) {
        if (w <= 64 && b.lo >= 0 && b.hi < p2(w)) { bnd[x.id()] = b; return sum; }
        E r = ranged("r", w);
        if (w <= 64 && b.lo > -p2(90) && b.hi < p2(90)) {
            auto fl = [&](I v) { I q = v / p2(w); if (v % p2(w) < 0) q--; return q; };
            I a = fl(b.lo), z = fl(b.hi);
            if (a == z) { s.add(sum == r + pow2(w) * c.int_val((int64_t)a)); return r; }
            if (z - a <= 3) { z3::expr_vector v(c); for (I k = a; k <= z; k++) v.push_back(sum == r + pow2(w) * c.int_val((int64_t)k)); s.add(z3::mk_or(v)); return r; }
        }
        E q = var("q"); s.add(sum == r + pow2(w) * q); return r;
    }
    Lia(z3::context &cc) : c(cc), s(cc, "QF_LIA") {}
    E pow2(unsigned w) { std::string v = "1"; // decimal 2^w
        std::vector<int> d{1}; for (unsigned i = 0; i < w; i++) { int cy = 0; for (auto &x : d) { x = x * 2 + cy; cy = x / 10; x %= 10; } if (cy) d.push_back(cy); }
        std::string r; for (auto it = d.rbegin(); it != d.rend(); ++it) r += char('0' + *it); return c.int_val(r.c_str()); }
    E var(const char *p) { return c.int_const((std::string(p) + "#" + std::to_string(fresh++)).c_str()); }
    E ranged(const char *p, unsigned w) { E v = var(p); s.add(v >= 0 && v < pow2(w)); return v; }
    E modw(const E &sum, unsigned w) { E r = ranged("r", w), q = var("q"); s.add(sum == r + pow2(w) * q); return r; }
    E num(const E &x, bool neg) {     // numeral, as signed when the high bit is set and neg
        std::string t = x.get_decimal_string(0); E v = c.int_val(t.c_str());
        if (!neg) return v;
        unsigned w = x.get_sort().bv_size(); E top = x.extract(w - 1, w - 1).simplify(); u64 b = 0; top.is_numeral_u64(b);
        return b ? (v - pow2(w)).simplify() : v;
    }
    E sgn(const E &x) { unsigned w = x.get_sort().bv_size(); E v = term(x); return z3::ite(v >= pow2(w - 1), v - pow2(w), v); }
    E term(const E &x) {
        auto it = memo.find(x.id()); if (it != memo.end()) return it->second;
        keep.push_back(x);
        E r = term0(x);
        memo.insert({x.id(), r}); return r;
    }
    E term0(const E &x) {
        unsigned w = x.get_sort().bv_size();
        if (x.is_numeral()) { u64 v = 0; if (w <= 64 && x.is_numeral_u64(v)) bnd[x.id()] = B{(I)v, (I)v}; return num(x, false); }
        if (x.is_app()) switch (x.decl().decl_kind()) {
        case Z3_OP_BADD: { E t = c.int_val(0); B b{0, 0}; for (unsigned i = 0; i < x.num_args(); i++) { E a = x.arg(i); t = t + lin(a); B n = linBound(a); b.lo += n.lo; b.hi += n.hi; } return modB(t, w, b, x); }
        case Z3_OP_BSUB: if (x.num_args() == 2) return modw(term(x.arg(0)) - term(x.arg(1)), w); break;
        case Z3_OP_BNEG: return modw(-term(x.arg(0)), w);
        case Z3_OP_BMUL: if (x.num_args() == 2 && (x.arg(0).is_numeral() || x.arg(1).is_numeral())) { E t = lin(x); return modB(t, w, linBound(x), x); } break;
        case Z3_OP_ZERO_EXT: { E t = term(x.arg(0)); bnd[x.id()] = boundOf(x.arg(0)); return t; }
        case Z3_OP_SIGN_EXT: { E a = x.arg(0); unsigned v = a.get_sort().bv_size(); E t = term(a); return z3::ite(t >= pow2(v - 1), t + pow2(w) - pow2(v), t); }
        case Z3_OP_CONCAT: { E t = c.int_val(0); B b{0, 0}; for (unsigned i = 0; i < x.num_args(); i++) { E a = x.arg(i); unsigned v = a.get_sort().bv_size(); t = t * pow2(v) + term(a); B n = boundOf(a); if (w <= 64) { b.lo = b.lo * p2(v) + n.lo; b.hi = b.hi * p2(v) + n.hi; } }
            if (w <= 64) bnd[x.id()] = b; return t; }
        case Z3_OP_EXTRACT: {
            E a = x.arg(0); unsigned v = a.get_sort().bv_size(), hi = x.hi(), lo = x.lo(); E t = term(a);
            E m = ranged("x", w); E sum = m;
            if (lo) sum = m * pow2(lo) + ranged("l", lo);
            if (hi + 1 < v) sum = sum + pow2(hi + 1) * ranged("h", v - hi - 1);
            s.add(t == sum); return m; }
        case Z3_OP_ITE: { E r = ranged("i", w); E cnd = boolean(x.arg(0)); s.add(z3::implies(cnd, r == term(x.arg(1)))); s.add(z3::implies(!cnd, r == term(x.arg(2)))); return r; }
        case Z3_OP_BSHL: { u64 k; if (x.arg(1).is_numeral() && x.arg(1).is_numeral_u64(k) && k < w) return modw(term(x.arg(0)) * pow2(k), w); break; }
        case Z3_OP_BLSHR: { u64 k; if (x.arg(1).is_numeral() && x.arg(1).is_numeral_u64(k) && k < w && k) { E m = ranged("s", w - k), l = ranged("t", k); s.add(term(x.arg(0)) == m * pow2(k) + l); return m; } break; }
        case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: if (x.arg(1).is_numeral()) { E d = num(x.arg(1), false); E q = ranged("d", w), r = ranged("m", w); s.add(term(x.arg(0)) == q * d + r && r < d); return q; } break;
        case Z3_OP_BUREM: case Z3_OP_BUREM_I: if (x.arg(1).is_numeral()) { E d = num(x.arg(1), false); E q = ranged("d", w), r = ranged("m", w); s.add(term(x.arg(0)) == q * d + r && r < d); return r; } break;
        case Z3_OP_BNOT: return pow2(w) - 1 - term(x.arg(0));
        default: break;
        }
        return ranged("o", w);
    }
    E lin(const E &a) {               // addend with a signed coefficient (exact modulo 2^w)
        if (a.is_numeral()) return num(a, true);
        if (a.is_app() && a.decl().decl_kind() == Z3_OP_BMUL && a.num_args() == 2) {
            if (a.arg(0).is_numeral()) return num(a.arg(0), true) * term(a.arg(1));
            if (a.arg(1).is_numeral()) return num(a.arg(1), true) * term(a.arg(0));
        }
        return term(a);
    }
    E boolean(const E &x) {
        auto it = bmemo.find(x.id()); if (it != bmemo.end()) return it->second;
        keep.push_back(x);
        E r = boolean0(x);
        bmemo.insert({x.id(), r}); return r;
    }
    E boolean0(const E &x) {
        if (x.is_true() || x.is_false()) return x;
        if (x.is_app()) switch (x.decl().decl_kind()) {
        case Z3_OP_AND: { z3::expr_vector v(c); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(boolean(x.arg(i))); return z3::mk_and(v); }
        case Z3_OP_OR: { z3::expr_vector v(c); for (unsigned i = 0; i < x.num_args(); i++) v.push_back(boolean(x.arg(i))); return z3::mk_or(v); }
        case Z3_OP_NOT: return !boolean(x.arg(0));
        case Z3_OP_IMPLIES: return z3::implies(boolean(x.arg(0)), boolean(x.arg(1)));
        case Z3_OP_ITE: return z3::ite(boolean(x.arg(0)), boolean(x.arg(1)), boolean(x.arg(2)));
        case Z3_OP_EQ: case Z3_OP_IFF:
            if (x.arg(0).is_bv()) return term(x.arg(0)) == term(x.arg(1));
            if (x.arg(0).is_bool()) return boolean(x.arg(0)) == boolean(x.arg(1));
            break;
        case Z3_OP_XOR: return boolean(x.arg(0)) != boolean(x.arg(1));
        case Z3_OP_DISTINCT: if (x.num_args() == 2 && x.arg(0).is_bv()) return term(x.arg(0)) != term(x.arg(1)); break;
        case Z3_OP_ULEQ: return term(x.arg(0)) <= term(x.arg(1));
        case Z3_OP_ULT: return term(x.arg(0)) < term(x.arg(1));
        case Z3_OP_UGEQ: return term(x.arg(0)) >= term(x.arg(1));
        case Z3_OP_UGT: return term(x.arg(0)) > term(x.arg(1));
        case Z3_OP_SLEQ: return sgn(x.arg(0)) <= sgn(x.arg(1));
        case Z3_OP_SLT: return sgn(x.arg(0)) < sgn(x.arg(1));
        case Z3_OP_SGEQ: return sgn(x.arg(0)) >= sgn(x.arg(1));
        case Z3_OP_SGT: return sgn(x.arg(0)) > sgn(x.arg(1));
        default: break;
        }
        return c.bool_const(("b#" + std::to_string(fresh++)).c_str());
    }
};
static u64 nLia;
static bool liaUnsat(const std::vector<E> &pc, const E *extra, unsigned ms) {
    try {
        Lia l(*Z);
        z3::params p(*Z); p.set("timeout", ms); l.s.set(p);
        for (auto &e : pc) l.s.add(l.boolean(e));
        if (extra) l.s.add(l.boolean(*extra));
        auto cr = l.s.check(); bool u = cr == z3::unsat;
        if (getenv("VF_LIADUMP") && !u) { static int k; std::ofstream f(std::string(getenv("VF_LIADUMP")) + "/lia" + std::to_string(k++) + (cr == z3::sat ? "_sat" : "_unk") + ".smt2"); f << l.s.to_smt2(); }
        if (u) nLia++;
        return u;
    } catch (z3::exception &) { return false; }
}
