// Random API histories over the variable store; every call and every
// observation is recorded and judged by spec/VarStoreTrace.tla.
//   drv_store OUT SEED PROFILE NEVENTS SIM
#include "drv.h"
#include <nanothread/nanothread.h>
#include <deque>

typedef long long ll;
struct H { uint32_t id, idx; VarType t; size_t n; ll lo, hi; bool unk = false; };
static std::vector<H> hs;
static uint32_t next_id = 1;
static Rng g(1);
static std::string profile;
static std::vector<void *> keep;
static std::map<uint32_t, int> pending; // handle -> kind of the pending reductions

static const char *tn(VarType t) {
    switch (t) {
        case VarType::Bool: return "b1"; case VarType::Int8: return "i8"; case VarType::UInt8: return "u8"; case VarType::Int16: return "i16";
        case VarType::UInt16: return "u16"; case VarType::Int32: return "i32"; case VarType::UInt32: return "u32"; case VarType::Int64: return "i64";
        case VarType::UInt64: return "u64"; case VarType::Float16: return "f16"; case VarType::Float32: return "f32"; case VarType::Float64: return "f64";
        default: return "??";
    }
}
static const std::vector<VarType> ALL = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
static bool isf(VarType t) { return t == VarType::Float16 || t == VarType::Float32 || t == VarType::Float64; }
static bool isu(VarType t) { return t == VarType::Bool || t == VarType::UInt8 || t == VarType::UInt16 || t == VarType::UInt32 || t == VarType::UInt64; }
static ll tmax(VarType t) {
    switch (t) {
        case VarType::Bool: return 1; case VarType::Int8: return 127; case VarType::UInt8: return 255; case VarType::Int16: return 32767; case VarType::UInt16: return 65535;
        case VarType::Float16: return 2048; case VarType::Float32: return 1 << 24; default: return 1 << 28;
    }
}
static ll tmin(VarType t) { return isu(t) ? 0 : -tmax(t); }

static void enc(VarType t, ll v, void *p) {
    switch (t) {
        case VarType::Bool: case VarType::Int8: case VarType::UInt8: { int8_t x = (int8_t) v; memcpy(p, &x, 1); break; }
        case VarType::Int16: case VarType::UInt16: { int16_t x = (int16_t) v; memcpy(p, &x, 2); break; }
        case VarType::Int32: case VarType::UInt32: { int32_t x = (int32_t) v; memcpy(p, &x, 4); break; }
        case VarType::Int64: case VarType::UInt64: memcpy(p, &v, 8); break;
        case VarType::Float16: { _Float16 x = (_Float16) v; memcpy(p, &x, 2); break; }
        case VarType::Float32: { float x = (float) v; memcpy(p, &x, 4); break; }
        case VarType::Float64: { double x = (double) v; memcpy(p, &x, 8); break; }
        default: abort();
    }
}
static ll fl2ll(double d) { if (!(d == d) || d > 1e9 || d < -1e9 || d != std::floor(d)) return 1999999999; return (ll) d; }
static ll clampll(ll v) { return v > 1999999999ll || v < -1999999999ll ? 1999999999ll : v; }
static ll dec(VarType t, const void *p) {
    switch (t) {
        case VarType::Bool: case VarType::UInt8: return *(const uint8_t *) p; case VarType::Int8: return *(const int8_t *) p;
        case VarType::Int16: { int16_t x; memcpy(&x, p, 2); return x; } case VarType::UInt16: { uint16_t x; memcpy(&x, p, 2); return x; }
        case VarType::Int32: { int32_t x; memcpy(&x, p, 4); return x; } case VarType::UInt32: { uint32_t x; memcpy(&x, p, 4); return clampll(x); }
        case VarType::Int64: { int64_t x; memcpy(&x, p, 8); return clampll(x); } case VarType::UInt64: { uint64_t x; memcpy(&x, p, 8); return x > 1999999999ull ? 1999999999 : (ll) x; }
        case VarType::Float16: { _Float16 x; memcpy(&x, p, 2); return fl2ll((double) x); }
        case VarType::Float32: { float x; memcpy(&x, p, 4); return fl2ll(x); }
        case VarType::Float64: { double x; memcpy(&x, p, 8); return fl2ll(x); }
        default: abort();
    }
}

// ---------------------------------------------------------------- handles
static H &reg(uint32_t idx, VarType t, size_t n, ll lo, ll hi, bool unk = false) {
    hs.push_back({ next_id++, idx, t, n, lo, hi, unk });
    return hs.back();
}
static std::vector<ll> rnd_vals(VarType t, size_t n, ll lo, ll hi) {
    std::vector<ll> v(n); for (auto &x : v) x = lo + (ll) (g.next() % (uint64_t) (hi - lo + 1)); return v;
}
static uint32_t mem(VarType t, const std::vector<ll> &v, int how = -1) {
    size_t sz = jit_type_size(t);
    if (how < 0) how = g.below(4);
    if (how == 1) { // mapped user memory, possibly misaligned
        uint8_t *p = nullptr; (void) !posix_memalign((void **) &p, 64, v.size() * sz + 128); size_t off = g.chance(1, 2) ? sz * g.below(5) : 0;
        keep.push_back(p);
        for (size_t i = 0; i < v.size(); ++i) enc(t, v[i], p + off + i * sz);
        return jit_var_mem_map(L, t, p + off, v.size(), 0);
    }
    std::vector<uint8_t> b(v.size() * sz + 8);
    for (size_t i = 0; i < v.size(); ++i) enc(t, v[i], b.data() + i * sz);
    if (how == 2) { // jit_malloc'ed memory with ownership transfer
        void *p = jit_malloc(L, v.size() * sz, 1); memcpy(p, b.data(), v.size() * sz);
        return jit_var_mem_map(L, t, p, v.size(), 1);
    }
    return jit_var_mem_copy(L, t, b.data(), v.size(), 1);
}
static H new_mem(VarType t, size_t n, ll lo, ll hi) {
    std::vector<ll> v = rnd_vals(t, n, lo, hi);
    H h = reg(mem(t, v), t, n, lo, hi);
    J().str("e", "mem").i("o", h.id).str("t", tn(t)).arr("v", v).emit();
    return h;
}
static H new_vals(VarType t, const std::vector<ll> &v, ll lo, ll hi) {
    H h = reg(mem(t, v), t, v.size(), lo, hi);
    J().str("e", "mem").i("o", h.id).str("t", tn(t)).arr("v", v).emit();
    return h;
}
static H new_lit(VarType t, size_t n, ll x) {
    uint8_t b[8]; enc(t, x, b);
    H h = reg(jit_var_literal(L, t, b, n, 0), t, n, x, x);
    J().str("e", "lit").i("o", h.id).str("t", tn(t)).i("n", n).i("x", x).emit();
    return h;
}
static size_t pos(uint32_t id) { for (size_t i = 0; i < hs.size(); ++i) if (hs[i].id == id) return i; abort(); }
static void drop(uint32_t id) {
    size_t i = pos(id); J().str("e", "free").i("h", id).emit(); jit_var_dec_ref(hs[i].idx);
    hs.erase(hs.begin() + i); pending.erase(id);
}
static bool is_mask_pushed(uint32_t) { return false; }

static void observe(const H &h) {
    void *p = nullptr; uint32_t r = jit_var_data(h.idx, &p); jit_sync_thread();
    size_t n = jit_var_size(h.idx), sz = jit_type_size(h.t); VarType t = jit_var_type(h.idx); std::vector<ll> v;
    if (t == h.t) for (size_t i = 0; i < n; ++i) v.push_back(dec(t, (uint8_t *) p + i * sz));
    J().str("e", "data").i("h", h.id).str("t", tn(t)).arr("r", v).emit();
    jit_var_dec_ref(r); pending.clear();
}
static void read1(const H &h) {
    size_t i = g.below((uint32_t) h.n); uint8_t b[8] = {}; jit_var_read(h.idx, i, b);
    J().str("e", "read").i("h", h.id).i("i", i).i("r", dec(h.t, b)).emit(); pending.clear();
}
static void status(const H &h) { J().str("e", "st").i("h", h.id).str("t", tn(jit_var_type(h.idx))).i("n", jit_var_size(h.idx)).emit(); }
static const char *stn(VarState s) { static const char *n[] = { "Invalid", "Undefined", "Literal", "Unevaluated", "Evaluated", "Dirty", "Symbolic", "Mixed" }; return n[(int) s]; }
static void state_ev(const H &h, bool after) { J().str("e", "state").i("h", h.id).b("after", after).str("s", stn(jit_var_state(h.idx))).b("dirty", jit_var_is_dirty(h.idx) != 0).emit(); }

static std::vector<size_t> SZ;
static size_t rnd_size() { return SZ[g.below((uint32_t) SZ.size())]; }
static uint32_t hot = 0;
static const H *pick(std::function<bool(const H &)> f) {
    if (hs.empty()) return nullptr;
    if (hot && g.chance(1, 3)) for (auto &h : hs) if (h.id == hot && f(h)) return &h; // recently modified
    size_t s = g.below((uint32_t) hs.size());
    for (size_t k = 0; k < hs.size(); ++k) { const H &h = hs[(s + k) % hs.size()]; if (f(h)) return &h; }
    return nullptr;
}
static bool compat(size_t a, size_t b) { return a == b || a == 1 || b == 1; }
static H find_or_make(VarType t, size_t n, ll lo, ll hi) {
    const H *h = g.chance(3, 4) ? pick([&](const H &x) { return x.t == t && compat(x.n, n) && x.lo >= lo && x.hi <= hi && !x.unk; }) : nullptr;
    if (h) return *h;
    if (g.chance(1, 3)) return new_lit(t, g.chance(1, 2) ? 1 : n, lo + (ll) (g.next() % (uint64_t) (hi - lo + 1)));
    return new_mem(t, g.chance(1, 5) ? 1 : n, lo, hi);
}
static H rnd_mask(size_t n) {
    if (g.chance(1, 4)) return new_lit(VarType::Bool, 1, g.chance(4, 5));
    return find_or_make(VarType::Bool, n, 0, 1);
}

static std::vector<uint32_t> temps; // handles to free soon
static void gc() {
    while (hs.size() > 22) { drop(hs[g.below((uint32_t) hs.size())].id); }
}

// ---------------------------------------------------------------- actions
static void a_new() {
    VarType t = ALL[g.below((uint32_t) ALL.size())]; ll m = std::min<ll>(tmax(t), g.chance(1, 3) ? 3 : 60); ll lo = isu(t) ? 0 : -m;
    switch (g.below(4)) {
        case 0: new_lit(t, g.chance(1, 2) ? 1 : rnd_size(), lo + (ll) (g.next() % (uint64_t) (m - lo + 1))); break;
        case 1: { size_t n = rnd_size(); H h = reg(jit_var_counter(L, n), VarType::UInt32, n, 0, (ll) n - 1); J().str("e", "cnt").i("o", h.id).i("n", n).emit(); break; }
        default: new_mem(t, rnd_size(), lo, m);
    }
}
static void emit_op(uint32_t idx, const char *op, VarType t, std::vector<H> a, ll lo, ll hi) {
    size_t n = 1; bool unk = false; std::vector<ll> ids; for (auto &x : a) { n = std::max(n, x.n); unk |= x.unk; ids.push_back(x.id); }
    H h = reg(idx, t, n, lo, hi, unk);
    J().str("e", "op").i("o", h.id).str("op", op).str("t", tn(t)).arr("a", ids).emit();
}
static void a_op() {
    VarType t = g.chance(1, 3) ? (g.chance(1, 2) ? VarType::Float32 : VarType::UInt32) : ALL[g.below((uint32_t) ALL.size())];
    ll mx = tmax(t), mn = tmin(t); size_t n = rnd_size();
    auto arg = [&](ll lo, ll hi) { return find_or_make(t, n, std::max(lo, mn), std::min(hi, mx)); };
    ll small = std::min<ll>(mx, 40);
    auto two = [&](H &a, H &b) { a = arg(mn, mx); size_t nn = a.n; const H *q = pick([&](const H &x) { return x.t == t && compat(x.n, nn) && !x.unk; }); b = (q && g.chance(2, 3)) ? *q : (n = nn == 1 ? n : nn, arg(isu(t) ? 0 : -small, small)); };
    H a, b, c; bool bo = t == VarType::Bool, fl = isf(t);
    switch (g.below(16)) {
        case 0: case 1: { if (bo) return; two(a, b); ll lo = a.lo + b.lo, hi = a.hi + b.hi; if (lo < mn || hi > mx) return; emit_op(jit_var_add(a.idx, b.idx), "add", t, { a, b }, lo, hi); break; }
        case 2: { if (bo) return; two(a, b); ll lo = a.lo - b.hi, hi = a.hi - b.lo; if (lo < mn || hi > mx) return; emit_op(jit_var_sub(a.idx, b.idx), "sub", t, { a, b }, lo, hi); break; }
        case 3: { if (bo) return; two(a, b); ll p[4] = { a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi }; ll lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); if (lo < mn || hi > mx) return; emit_op(jit_var_mul(a.idx, b.idx), "mul", t, { a, b }, lo, hi); break; }
        case 4: { if (bo) return; two(a, b); c = find_or_make(t, std::max(a.n, b.n), isu(t) ? 0 : -small, small); if (!compat(c.n, std::max(a.n, b.n))) return; ll p[4] = { a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi }; ll lo = *std::min_element(p, p + 4) + c.lo, hi = *std::max_element(p, p + 4) + c.hi; if (lo < mn || hi > mx) return; emit_op(jit_var_fma(a.idx, b.idx, c.idx), "fma", t, { a, b, c }, lo, hi); break; }
        case 5: { if (bo) return; two(a, b); if (g.chance(1, 2)) emit_op(jit_var_min(a.idx, b.idx), "min", t, { a, b }, std::min(a.lo, b.lo), std::min(a.hi, b.hi)); else emit_op(jit_var_max(a.idx, b.idx), "max", t, { a, b }, std::max(a.lo, b.lo), std::max(a.hi, b.hi)); break; }
        case 6: case 7: { two(a, b); static const char *nm[] = { "eq", "neq", "lt", "le", "gt", "ge" }; int k = g.below(bo ? 2 : 6); JitOp op[] = { JitOp::Eq, JitOp::Neq, JitOp::Lt, JitOp::Le, JitOp::Gt, JitOp::Ge }; uint32_t d[2] = { a.idx, b.idx }; emit_op(jit_var_op(op[k], d), nm[k], VarType::Bool, { a, b }, 0, 1); break; }
        case 8: case 9: { two(a, b); size_t m = std::max(a.n, b.n); c = find_or_make(VarType::Bool, m, 0, 1); emit_op(jit_var_select(c.idx, a.idx, b.idx), "select", t, { c, a, b }, std::min(a.lo, b.lo), std::max(a.hi, b.hi)); break; }
        case 10: { if (fl) return; if (!bo) { a = find_or_make(t, n, 0, mx); b = find_or_make(t, a.n, 0, mx); } else two(a, b); ll k = 1; while (k <= std::max(a.hi, b.hi)) k *= 2; if (k - 1 > mx) return;
            switch (g.below(3)) { case 0: emit_op(jit_var_and(a.idx, b.idx), "and", t, { a, b }, 0, std::min(a.hi, b.hi)); break; case 1: emit_op(jit_var_or(a.idx, b.idx), "or", t, { a, b }, 0, k - 1); break; default: emit_op(jit_var_xor(a.idx, b.idx), "xor", t, { a, b }, 0, k - 1); } break; }
        case 11: { if (bo) { a = find_or_make(t, n, 0, 1); emit_op(jit_var_not(a.idx), "lnot", t, { a }, 0, 1); break; } a = arg(mn, mx); c = find_or_make(VarType::Bool, a.n, 0, 1); emit_op(jit_var_and(a.idx, c.idx), "mask", t, { a, c }, std::min(a.lo, 0ll), std::max(a.hi, 0ll)); break; }
        case 12: { if (bo) return; a = arg(mn, mx); if (!isu(t) && g.chance(1, 2)) emit_op(jit_var_neg(a.idx), "neg", t, { a }, -a.hi, -a.lo); else emit_op(jit_var_abs(a.idx), "abs", t, { a }, 0, std::max(std::abs(a.lo), std::abs(a.hi))); break; }
        case 13: { if (bo || fl) return; a = find_or_make(t, n, 0, mx); H d = g.chance(2, 3) ? new_lit(t, 1, 1 + g.below((uint32_t) std::min<ll>(20, mx))) : new_mem(t, g.chance(1, 2) ? 1 : a.n, 1, std::min<ll>(9, mx)); if (!compat(a.n, d.n)) return; if (g.chance(1, 2)) emit_op(jit_var_div(a.idx, d.idx), "div", t, { a, d }, 0, a.hi); else emit_op(jit_var_mod(a.idx, d.idx), "mod", t, { a, d }, 0, std::max(0ll, std::min(a.hi, d.hi - 1))); break; }
        case 14: { if (bo || fl) return; a = find_or_make(t, n, 0, mx); int s = g.below(5); H d = new_lit(t, 1, s); if (g.chance(1, 2)) { if (a.hi << s > mx) return; emit_op(jit_var_shl(a.idx, d.idx), "shl", t, { a, d }, a.lo << s, a.hi << s); } else emit_op(jit_var_shr(a.idx, d.idx), "shr", t, { a, d }, a.lo >> s, a.hi >> s); break; }
        default: { a = arg(mn, mx); VarType t2 = ALL[g.below((uint32_t) ALL.size())]; if (t2 != VarType::Bool && (a.lo < tmin(t2) || a.hi > tmax(t2))) return; 
            H h = reg(jit_var_cast(a.idx, t2, 0), t2, a.n, t2 == VarType::Bool ? 0 : a.lo, t2 == VarType::Bool ? 1 : a.hi, a.unk); J().str("e", "cast").i("o", h.id).i("h", a.id).str("t", tn(t2)).emit(); }
    }
}
static void nop(const char *w) { J().str("e", "nop").str("w", w).emit(); }

static void a_eval() {
    const H *h = pick([](const H &) { return true; }); if (!h) return; H x = *h;
    switch (g.below(5)) {
        case 0: case 1: { jit_var_eval(x.idx); pending.clear(); state_ev(x, true); break; }
        case 2: { int k = 1 + g.below(4); for (int i = 0; i < k; ++i) { const H *y = pick([](const H &) { return true; }); jit_var_schedule(y->idx); } nop("schedule"); if (g.chance(2, 3)) { jit_eval(); pending.clear(); nop("eval"); } break; }
        case 3: { int rv; uint32_t r = jit_var_schedule_force(x.idx, &rv); if (rv) { jit_eval(); pending.clear(); } H y = reg(r, x.t, x.n, x.lo, x.hi, x.unk); J().str("e", "dup").i("o", y.id).i("h", x.id).emit(); state_ev(y, true); break; }
        default: jit_eval(); pending.clear(); nop("eval");
    }
}
static void a_obs() {
    const H *h = pick([](const H &) { return true; }); if (!h) return; H x = *h;
    switch (g.below(4)) { case 0: observe(x); break; case 1: read1(x); break; case 2: status(x); break; default: state_ev(x, false); }
}
static void a_dup() {
    const H *h = pick([](const H &) { return true; }); if (!h) return; H x = *h; uint32_t r;
    switch (g.below(4)) { case 0: case 1: jit_var_inc_ref(x.idx); r = x.idx; break; case 2: r = jit_var_copy(x.idx); break; default: r = jit_var_copy_opaque(x.idx); pending.clear(); }
    H y = reg(r, x.t, x.n, x.lo, x.hi, x.unk); if (pending.count(x.id)) pending[y.id] = pending[x.id];
    J().str("e", "dup").i("o", y.id).i("h", x.id).emit();
}
static void a_free() { if (hs.size() < 4) return; drop(hs[g.below((uint32_t) hs.size())].id); }
static void a_resize() {
    const H *h = pick([](const H &x) { return x.n == 1; }); if (!h) return; H x = *h; size_t n = rnd_size();
    H y = reg(jit_var_resize(x.idx, n), x.t, n, x.lo, x.hi, x.unk); J().str("e", "resize").i("o", y.id).i("h", x.id).i("n", n).emit();
    // a handle of size 1 may be resized in place: the original reference is consumed
    J().str("e", "free").i("h", x.id).emit(); jit_var_dec_ref(x.idx); hs.erase(hs.begin() + pos(x.id)); pending.erase(x.id);
}
static void a_shrink() {
    const H *h = pick([](const H &x) { return x.n > 1; }); if (!h) return; H x = *h; size_t n = 1 + g.below((uint32_t) x.n);
    H y = reg(jit_var_shrink(x.idx, n), x.t, n, x.lo, x.hi, x.unk); J().str("e", "shrink").i("o", y.id).i("h", x.id).i("n", n).emit();
}
static const std::vector<VarType> IDX = { VarType::UInt32, VarType::Int32, VarType::UInt32, VarType::UInt64, VarType::Int64, VarType::UInt32, VarType::UInt16 };

// An index array with the given values, produced in various ways
static std::vector<uint8_t> cur_mask; static uint32_t cur_mask_on = 0; // top of the mask stack
static bool oob = false; // some (disabled) index is out of bounds
static H index_of(const std::vector<ll> &v, bool u32 = false) {
    ll hi = 0; bool same = true, cnt = true; for (size_t i = 0; i < v.size(); ++i) { hi = std::max(hi, v[i]); same &= v[i] == v[0]; cnt &= v[i] == (ll) i; }
    VarType t = IDX[g.below((uint32_t) IDX.size())]; if (u32 || (t == VarType::UInt16 && hi > 65535)) t = VarType::UInt32;
    if (cnt && g.chance(1, 2)) { H h = reg(jit_var_counter(L, v.size()), VarType::UInt32, v.size(), 0, (ll) v.size() - 1); J().str("e", "cnt").i("o", h.id).i("n", v.size()).emit(); return h; }
    bool bad = oob; oob = false;
    if (same && !bad && g.chance(2, 3)) return new_lit(t, !cur_mask_on && g.chance(1, 2) ? 1 : v.size(), v[0]);
    if (g.chance(1, 3)) { // computed: (v + k) - k
        std::vector<ll> w = v; ll k = 1 + g.below(5); for (auto &x : w) x += k; H a = new_vals(VarType::UInt32, w, 0, hi + k), b = new_lit(VarType::UInt32, 1, k);
        uint32_t r = jit_var_sub(a.idx, b.idx); emit_op(r, "sub", VarType::UInt32, { a, b }, 0, hi); H res = hs.back(); drop(a.id); drop(b.id); return res;
    }
    return new_vals(t, v, 0, hi);
}
static ll masked_index(bool off, ll v, size_t n) { // lanes that are switched off may hold anything
    if (!off || g.chance(1, 2)) return v;
    oob = true; return (ll) (g.chance(1, 2) ? 100000000 + g.below(1000) : n + g.below(100));
}
// counter(n) % cnt, as an unevaluated expression
static H index_counter(size_t n, size_t cnt) {
    H c = reg(jit_var_counter(L, n), VarType::UInt32, n, 0, (ll) n - 1); J().str("e", "cnt").i("o", c.id).i("n", n).emit();
    H d = new_lit(VarType::UInt32, 1, (ll) cnt); emit_op(jit_var_mod(c.idx, d.idx), "mod", VarType::UInt32, { c, d }, 0, (ll) cnt - 1);
    H r = hs.back(); drop(c.id); drop(d.id); return r;
}
static bool stack_ok(size_t n) { return !cur_mask_on || cur_mask.size() == n; }

static H known_mask(size_t n, std::vector<uint8_t> &m) {
    m.assign(n, 1);
    switch (g.below(6)) {
        case 0: return new_lit(VarType::Bool, 1, 1);
        case 1: if (g.chance(1, 3)) { m.assign(n, 0); return new_lit(VarType::Bool, g.chance(1, 2) ? 1 : n, 0); } return new_lit(VarType::Bool, n, 1);
        case 2: if (n > 1 && g.chance(1, 2)) { uint8_t b = g.chance(2, 3); m.assign(n, b); return new_vals(VarType::Bool, { b }, 0, 1); }
        default: { std::vector<ll> v(n); bool dense = g.chance(1, 2); for (size_t i = 0; i < n; ++i) v[i] = m[i] = g.chance(dense ? 4 : 1, 5) || (dense && g.chance(1, 2)); return new_vals(VarType::Bool, v, 0, 1); }
    }
}
static void a_gather() {
    const H *h = pick([](const H &x) { return !x.unk; }); if (!h) return; H s = *h; size_t n = cur_mask_on ? cur_mask.size() : (g.chance(1, 3) ? s.n : rnd_size());
    std::vector<uint8_t> m; H mk = known_mask(n, m);
    std::vector<ll> v(n); int pat = g.below(5);
    for (size_t i = 0; i < n; ++i) {
        ll x = pat == 0 ? (ll) (i % s.n) : pat == 1 ? (ll) (s.n - 1 - i % s.n) : pat == 2 ? (ll) g.below((uint32_t) s.n) : pat == 3 ? (ll) ((i / 2) % s.n) : (ll) g.below((uint32_t) s.n);
        v[i] = s.n == 1 ? x : masked_index(!m[i] || (cur_mask_on && !cur_mask[i]), x, s.n);
    }
    if (pat == 4 && n > 0) { ll x = g.below((uint32_t) s.n); for (auto &y : v) y = x; }
    H ix = !oob && !cur_mask_on && g.chance(1, 4) ? index_counter(n, s.n) : index_of(v); oob = false;
    H o = reg(jit_var_gather(s.idx, ix.idx, mk.idx), s.t, std::max(ix.n, mk.n), std::min(0ll, s.lo), std::max(0ll, s.hi), cur_mask_on != 0);
    if (cur_mask_on) hs.back().n = o.n = std::max(o.n, cur_mask.size());
    J().str("e", "gather").i("o", o.id).i("s", s.id).i("i", ix.id).i("m", mk.id).emit(); pending.erase(s.id);
    uint32_t a = ix.id, b = mk.id; if (g.chance(2, 3)) drop(a); if (g.chance(2, 3)) drop(b);
}
static void a_gpack() {
    int k = (int[]) { 2, 4, 8, 3, 16, 6, 1 + 1 }[g.below(7)]; size_t cnt = 1 + g.below(12); VarType t = ALL[g.below((uint32_t) ALL.size())]; ll m = std::min<ll>(tmax(t), 99);
    const H *q = pick([&](const H &x) { return x.n % k == 0 && !x.unk && x.n > 1; }); H s = q && g.chance(1, 2) ? *q : new_mem(t, cnt * k, isu(t) ? 0 : -m, m); cnt = s.n / k;
    size_t n = cur_mask_on ? cur_mask.size() : rnd_size(); std::vector<uint8_t> mm; H mk = known_mask(n, mm); std::vector<ll> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = masked_index(!mm[i] || (cur_mask_on && !cur_mask[i]), g.below((uint32_t) cnt), cnt);
    H ix = !oob && !cur_mask_on && g.chance(1, 3) ? index_counter(n, cnt) : index_of(v); oob = false; std::vector<uint32_t> out(k); jit_var_gather_packet(k, s.idx, ix.idx, mk.idx, out.data()); std::vector<ll> ids;
    size_t w = std::max(ix.n, mk.n); if (cur_mask_on) w = std::max(w, cur_mask.size());
    for (int j = 0; j < k; ++j) ids.push_back(reg(out[j], s.t, w, std::min(0ll, s.lo), std::max(0ll, s.hi), cur_mask_on != 0).id);
    J().str("e", "gpack").arr("o", ids).i("s", s.id).i("i", ix.id).i("m", mk.id).emit(); pending.clear();
    for (ll id : ids) { if (g.chance(1, 3)) observe(hs[pos((uint32_t) id)]); if (g.chance(2, 4)) drop((uint32_t) id); }
    drop(ix.id); drop(mk.id);
}
static H target_for(VarType t, size_t n, ll lo, ll hi) {
    const H *h = pick([&](const H &x) { return x.t == t && x.n == n && !x.unk && x.lo >= lo && x.hi <= hi; });
    if (h && g.chance(4, 5)) return *h;
    if (g.chance(1, 3)) return new_lit(t, n, g.below(3) % (uint32_t) (tmax(t) + 1));
    return new_mem(t, n, isu(t) ? 0 : -std::min<ll>(hi, 9), std::min<ll>(hi, 9));
}
static void flush_if(H &t, int kind) { // conflicting pending reductions need an explicit evaluation
    auto it = pending.find(t.id);
    bool dirty = jit_var_is_dirty(t.idx);
    if (dirty && (it == pending.end() || it->second != kind)) { jit_var_eval(t.idx); pending.clear(); nop("flush"); }
}
static void set_handle(uint32_t id, uint32_t idx, ll lo, ll hi) { H &h = hs[pos(id)]; jit_var_dec_ref(h.idx); h.idx = idx; hot = id; h.lo = lo; h.hi = hi; }

static void a_scatter(bool packet, bool plain) {
    VarType t = ALL[g.below((uint32_t) ALL.size())]; 
    static const ReduceOp ROP[] = { ReduceOp::Add, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or }; static const char *RN[] = { "add", "min", "max", "and", "or" };
    int oi = g.below(5); if (g.chance(1, 2)) oi = 0; ReduceOp op = plain ? ReduceOp::Identity : ROP[oi]; const char *on = plain ? "id" : RN[oi];
    if (!plain && !jit_can_scatter_reduce(L, t, op)) return;
    int k = packet ? (int[]) { 2, 4, 8, 3, 16 }[g.below(5)] : 1;
    size_t cnt = g.chance(1, 6) ? 1 : (1 + g.below(40)); size_t tn_ = cnt * k; 
    if (!packet && g.chance(1, 2)) { tn_ = rnd_size(); cnt = tn_; }
    ll mx = tmax(t), mn = tmin(t);
    H tg = target_for(t, tn_, (op == ReduceOp::And || op == ReduceOp::Or) ? 0 : mn, mx);
    size_t n = cur_mask_on ? cur_mask.size() : rnd_size(); if (g.chance(1, 4) && !cur_mask_on) n = 1;
    static const ReduceMode MODES[] = { ReduceMode::Auto, ReduceMode::Direct, ReduceMode::Local, ReduceMode::Expand, ReduceMode::NoConflicts, ReduceMode::Auto };
    bool uniq = plain || g.chance(1, 4);
    if (uniq && n > cnt) { if (cur_mask_on) return; n = 1 + g.below((uint32_t) cnt); }
    ReduceMode mode = MODES[g.below(6)]; if (mode == ReduceMode::NoConflicts && !uniq) mode = ReduceMode::Auto; if (mode == ReduceMode::NoConflicts && !plain && jit_var_is_dirty(tg.idx)) mode = ReduceMode::Direct; if (plain) mode = g.chance(1, 4) && !jit_var_is_dirty(tg.idx) ? (g.chance(1, 2) ? ReduceMode::NoConflicts : ReduceMode::Permute) : ReduceMode::Auto;
    if (plain && mode != ReduceMode::Auto && tg.n == 1 && false) mode = ReduceMode::Auto;
    bool small_exp = tg.n <= jit_llvm_expand_threshold();
    int kind = (int) op * 16 + (mode == ReduceMode::Expand || (mode == ReduceMode::Auto && small_exp) ? 1 : mode == ReduceMode::NoConflicts ? 2 : 0);
    if (!plain) flush_if(tg, kind); 
    // value range
    ll vh = std::min<ll>(20, mx), vl = isu(t) || op == ReduceOp::And || op == ReduceOp::Or ? 0 : -vh; 
    if (op == ReduceOp::Add) { ll room = std::min(mx - tg.hi, tg.lo - mn + (isu(t) ? mx : 0)); vh = std::min<ll>(vh, room / (ll) std::max<size_t>(n, 1)); if (isu(t)) vl = 0; else vl = -vh; if (vh < 0) return; if (vh == 0 && isu(t) == false) vl = 0; }
    if (t == VarType::Bool) { vl = 0; vh = 1; }
    std::vector<uint8_t> m; H mk = known_mask(n, m);
    std::vector<H> vals; std::vector<ll> vids; bool lits = g.chance(1, 3);
    for (int j = 0; j < k; ++j) {
        H v = lits ? new_lit(t, g.chance(1, 2) ? 1 : n, vl + (ll) (g.next() % (uint64_t) (vh - vl + 1))) : find_or_make(t, n, vl, vh);
        if (!packet && tg.n == n && tg.lo >= vl && tg.hi <= vh && g.chance(1, 3)) v = tg; // the previous contents of the target
        if (!compat(v.n, n) ) return;
        if (v.id == tg.id && packet) return;
        vals.push_back(v); vids.push_back(v.id);
    }
    for (auto &v : vals) if (v.n > 1 && v.n != n) return;
    std::vector<ll> ix(n);
    if (uniq) { std::vector<ll> p(cnt); for (size_t i = 0; i < cnt; ++i) p[i] = (ll) i; for (size_t i = cnt; i > 1; --i) std::swap(p[i - 1], p[g.below((uint32_t) i)]); bool asc = g.chance(1, 4); for (size_t i = 0; i < n; ++i) ix[i] = asc ? (ll) i : p[i]; }
    else { int pat = g.below(3); for (size_t i = 0; i < n; ++i) ix[i] = pat == 0 ? 0 : pat == 1 ? (ll) ((i / 3) % cnt) : (ll) g.below((uint32_t) cnt); }
    // keep switched-off lanes unique as well (they may be huge, or point anywhere)
    for (size_t i = 0; i < n; ++i) ix[i] = masked_index(!m[i] || (cur_mask_on && !cur_mask[i]), ix[i], cnt);
    H I = index_of(ix);
    if (uniq && I.n == 1 && n > 1) return;
    size_t w = std::max(I.n, mk.n); for (auto &v : vals) w = std::max(w, v.n);
    if (uniq && w > I.n) return; // a single index written by many lanes
    if (!plain && w > n) return;
    if (w > 1 && I.n == 1 && plain) return;
    if (cur_mask_on && w != cur_mask.size()) return;
    uint32_t r;
    ll lo = tg.lo, hi = tg.hi, vmin = 0, vmax = 0; bool first = true; for (auto &v : vals) { vmin = first ? v.lo : std::min(vmin, v.lo); vmax = first ? v.hi : std::max(vmax, v.hi); first = false; }
    if (plain || op == ReduceOp::Min || op == ReduceOp::Max || op == ReduceOp::And) { lo = std::min(lo, vmin); hi = std::max(hi, vmax); }
    else if (op == ReduceOp::Or) { ll q = 1; while (q <= std::max(hi, vmax)) q *= 2; lo = std::min(lo, vmin); hi = q - 1; }
    else { lo += std::min(0ll, vmin * (ll) w); hi += std::max(0ll, vmax * (ll) w); }
    if (lo < mn || hi > mx) return;
    if (packet) { std::vector<uint32_t> vi; for (auto &v : vals) vi.push_back(v.idx); r = jit_var_scatter_packet(k, tg.idx, vi.data(), I.idx, mk.idx, op, mode); }
    else r = jit_var_scatter(tg.idx, vals[0].idx, I.idx, mk.idx, op, mode);
    J().str("e", "scat").i("h", tg.id).arr("a", vids).i("i", I.id).i("m", mk.id).str("op", on).i("mode", (int) mode).emit();
    set_handle(tg.id, r, lo, hi);
    if (!plain) pending[tg.id] = kind; else if (mode != ReduceMode::Auto) pending[tg.id] = -1; else pending.erase(tg.id);
    if (g.chance(1, 2)) drop(I.id); if (g.chance(1, 2)) drop(mk.id);
}
// One evaluation with many distinct sizes and several order-dependent writes of the same size
static void a_many() {
    if (cur_mask_on) return;
    uint32_t K = 28 + g.below(20); std::vector<uint32_t> made; size_t n = 1 + g.below(40); H tg = new_mem(VarType::UInt32, n, 0, 9), mk = new_lit(VarType::Bool, 1, 1); pending.clear();
    std::vector<ll> ix(n); for (size_t i = 0; i < n; ++i) ix[i] = (ll) i; if (g.chance(1, 2)) std::reverse(ix.begin(), ix.end()); H I = new_vals(VarType::UInt32, ix, 0, (ll) n - 1);
    for (uint32_t k = 0; k < K; ++k) {
        size_t z = 1 + k; H c = reg(jit_var_counter(L, z), VarType::UInt32, z, 0, (ll) z - 1); J().str("e", "cnt").i("o", c.id).i("n", z).emit(); H l = new_lit(VarType::UInt32, 1, g.below(50));
        emit_op(jit_var_add(c.idx, l.idx), "add", VarType::UInt32, { c, l }, l.lo, l.hi + (ll) z); made.push_back(hs.back().id); jit_var_schedule(hs.back().idx);
        for (uint32_t q = g.below(3); q > 0; --q) { H y = hs.back(); emit_op(jit_var_add(y.idx, c.idx), "add", VarType::UInt32, { y, c }, y.lo, y.hi + (ll) z); made.push_back(hs.back().id); if (g.chance(1, 2)) jit_var_schedule(hs.back().idx); }
        drop(c.id); drop(l.id);
        if (k == K / 3) {
            H v = new_lit(VarType::UInt32, 1, 10 + k), x = hs[pos(tg.id)]; uint32_t r = jit_var_scatter(x.idx, v.idx, I.idx, mk.idx, ReduceOp::Identity, ReduceMode::Auto);
            J().str("e", "scat").i("h", tg.id).arr("a", std::vector<ll>{ (ll) v.id }).i("i", I.id).i("m", mk.id).str("op", "id").i("mode", (int) ReduceMode::Auto).emit(); set_handle(tg.id, r, 0, 100); drop(v.id);
        }
    }
    jit_eval(); pending.clear(); nop("eval"); observe(hs[pos(tg.id)]); for (uint32_t id : made) { if (g.chance(1, 3)) observe(hs[pos(id)]); drop(id); } drop(mk.id); drop(I.id);
}
static void a_inc() {
    size_t cnt = g.chance(1, 2) ? 1 : 1 + g.below(8); H tg = target_for(VarType::UInt32, cnt, 0, 100000); size_t n = cur_mask_on ? cur_mask.size() : rnd_size(); std::vector<uint8_t> m; H mk = known_mask(n, m); std::vector<ll> ix(n);
    if (cur_mask_on) return;
    for (auto &x : ix) x = g.below((uint32_t) cnt); H I = index_of(ix, true); uint32_t tgt = tg.idx; size_t i = pos(tg.id);
    if (jit_var_is_dirty(tgt)) { jit_var_eval(tgt); pending.clear(); nop("flush"); }
    uint32_t r = jit_var_scatter_inc(&hs[i].idx, I.idx, mk.idx); size_t w = std::max(I.n, mk.n);
    uint32_t gi = 0, gm = 0, gr = 0; bool gat = g.chance(1, 3);
    if (gat) { // read the (not yet evaluated) previous values at other positions
        std::vector<ll> q(1 + g.below(20)); for (auto &x : q) x = g.below((uint32_t) w); H a = index_of(q), b = new_lit(VarType::Bool, 1, 1); gi = a.id; gm = b.id; gr = jit_var_gather(r, a.idx, b.idx); i = pos(tg.id); if (g.chance(1, 2)) { jit_var_schedule(gr); jit_var_schedule(r); jit_eval(); } }
    void *p; uint32_t d = jit_var_data(r, &p); jit_sync_thread(); std::vector<ll> v; size_t rn = jit_var_size(r); for (size_t q = 0; q < rn; ++q) v.push_back(dec(VarType::UInt32, (uint8_t *) p + 4 * q)); jit_var_dec_ref(d);
    pending.clear(); hs[i].hi += (ll) w; H o = reg(r, VarType::UInt32, w, 0, hs[i].hi, true);
    J().str("e", "inc").i("h", tg.id).i("o", o.id).i("i", I.id).i("m", mk.id).arr("r", v).emit();
    if (gat) { H y = reg(gr, VarType::UInt32, jit_var_size(gr), 0, o.hi, true); J().str("e", "gather").i("o", y.id).i("s", o.id).i("i", gi).i("m", gm).emit(); observe(y); drop(gi); drop(gm); }
    drop(I.id); drop(mk.id);
}
static const std::vector<VarType> ATOM = { VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float32, VarType::Float64 };
static void a_exch(bool cas) {
    if (cur_mask_on) return;
    VarType t = ATOM[g.below((uint32_t) ATOM.size())]; size_t cnt = rnd_size(); H tg = target_for(t, cnt, tmin(t), tmax(t)); if (tg.n != cnt) return;
    size_t n = 1 + g.below((uint32_t) cnt); std::vector<ll> p(cnt); for (size_t i = 0; i < cnt; ++i) p[i] = (ll) i; for (size_t i = cnt; i > 1; --i) std::swap(p[i - 1], p[g.below((uint32_t) i)]); p.resize(n);
    std::vector<uint8_t> m; H mk = known_mask(n, m); H v = find_or_make(t, n, isu(t) ? 0 : -20, 20); if (n == cnt && g.chance(1, 3)) v = tg; if (!compat(v.n, n)) return; if (v.n > 1 && v.n != n) return; H c = v; if (cas) { c = find_or_make(t, n, isu(t) ? 0 : -9, 9); if (n == cnt && g.chance(1, 3)) c = tg; if (c.n > 1 && c.n != n) return; }
    H I = index_of(p, true); if (I.n != n) return; size_t i = pos(tg.id);
    if (jit_var_is_dirty(tg.idx)) { jit_var_eval(tg.idx); pending.clear(); nop("flush"); }
    i = pos(tg.id);
    if (cas) {
        uint32_t old = 0, ok = 0; jit_var_scatter_cas(&hs[i].idx, c.idx, v.idx, I.idx, mk.idx, &old, &ok); hs[i].lo = std::min(hs[i].lo, v.lo); hs[i].hi = std::max(hs[i].hi, v.hi); ll lo = hs[i].lo, hi = hs[i].hi;
        if (!old || !ok) { J().str("e", "err").str("w", "jit_var_scatter_cas() did not produce its outputs").emit(); return; }
        jit_var_schedule(old); jit_var_schedule(ok); jit_eval(); H o = reg(old, t, n, lo, hi, true), s = reg(ok, VarType::Bool, n, 0, 1, true);
        J().str("e", "cas").i("h", tg.id).i("o", o.id).i("o2", s.id).i("c", c.id).i("v", v.id).i("i", I.id).i("m", mk.id).emit();
        if (g.chance(1, 2)) observe(o); if (g.chance(1, 2)) observe(s);
    } else {
        uint32_t r = jit_var_scatter_exch(&hs[i].idx, v.idx, I.idx, mk.idx); hs[i].lo = std::min(hs[i].lo, v.lo); hs[i].hi = std::max(hs[i].hi, v.hi); ll lo = hs[i].lo, hi = hs[i].hi;
        jit_var_schedule(r); jit_eval(); H o = reg(r, t, n, lo, hi, true); J().str("e", "exch").i("h", tg.id).i("o", o.id).i("v", v.id).i("i", I.id).i("m", mk.id).emit(); if (g.chance(1, 2)) observe(o);
    }
    pending.clear();
    if (g.chance(1, 2)) drop(I.id); if (g.chance(1, 2)) drop(mk.id);
}
static void a_write() {
    const H *h = pick([](const H &x) { return !x.unk; }); if (!h) return; H x = *h; ll m = std::min<ll>(tmax(x.t), 50), v = (isu(x.t) ? 0 : -m) + (ll) (g.next() % (uint64_t) (isu(x.t) ? m + 1 : 2 * m + 1)); size_t i = g.below((uint32_t) x.n);
    uint8_t b[8]; enc(x.t, v, b); uint32_t r = jit_var_write(x.idx, i, b); pending.clear();
    J().str("e", "poke").i("h", x.id).i("i", i).i("x", v).emit(); set_handle(x.id, r, std::min(x.lo, v), std::max(x.hi, v));
}
static void a_move() {
    if (cur_mask_on) return; // these are implemented using (maskable) gathers
    const H *h = pick([](const H &x) { return !x.unk && x.n < 200; }); if (!h) return; H x = *h; pending.erase(x.id);
    switch (g.below(3)) {
        case 0: { H y = reg(jit_var_reverse(x.idx), x.t, x.n, x.lo, x.hi); J().str("e", "rev").i("o", y.id).i("h", x.id).emit(); break; }
        case 1: { uint32_t k = 1 + g.below(4); H y = reg(jit_var_tile(x.idx, k), x.t, x.n * k, x.lo, x.hi); J().str("e", "tile").i("o", y.id).i("h", x.id).i("n", k).emit(); break; }
        default: { uint32_t k = 1 + g.below(4); size_t mxs = g.chance(1, 2) ? 0 : 1 + g.below((uint32_t) (x.n * k + 3)), n = x.n * k; if (mxs && mxs < n) n = mxs; H y = reg(jit_var_repeat(x.idx, k, mxs), x.t, n, x.lo, x.hi); J().str("e", "rep").i("o", y.id).i("h", x.id).i("n", k).i("mx", mxs).emit(); }
    }
}
static H horiz_arg(VarType t, ReduceOp op) {
    size_t n = rnd_size(); ll mx = tmax(t); ll b = op == ReduceOp::Mul ? 1 : std::min<ll>(mx, op == ReduceOp::Add ? std::max<ll>(0, mx / (ll) n) : 100); b = std::min<ll>(b, 50);
    if (op == ReduceOp::Mul) { // mostly ones
        std::vector<ll> v(n, 1); int k = 0; for (auto &x : v) if (g.chance(1, 4)) x = isu(t) ? 1 : -1; if (tmax(t) >= 2048) for (int z = 0; z < 4; ++z) v[g.below((uint32_t) n)] = 2; if (g.chance(1, 6)) v[g.below((uint32_t) n)] = 0;
        if (g.chance(1, 4)) return new_lit(t, n, isu(t) ? g.below(2) : (ll) g.below(3) - 1);
        return new_vals(t, v, isu(t) ? 0 : -16, 16);
    }
    const H *q = pick([&](const H &x) { return x.t == t && !x.unk && (op != ReduceOp::Add || (x.hi * (ll) x.n <= mx && x.lo * (ll) x.n >= tmin(t))) && (op != ReduceOp::And && op != ReduceOp::Or || x.lo >= 0); });
    if (q && g.chance(1, 2)) return *q;
    ll lo = isu(t) || op == ReduceOp::And || op == ReduceOp::Or ? 0 : -b;
    if (g.chance(1, 4)) return new_lit(t, n, lo + (ll) (g.next() % (uint64_t) (b - lo + 1)));
    return new_mem(t, n, lo, b);
}
static const std::vector<VarType> REDT = { VarType::UInt8, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };
static void a_horiz() {
    static const ReduceOp OPS[] = { ReduceOp::Add, ReduceOp::Mul, ReduceOp::Min, ReduceOp::Max, ReduceOp::And, ReduceOp::Or }; static const char *ON[] = { "add", "mul", "min", "max", "and", "or" };
    int oi = g.below(6); ReduceOp op = OPS[oi]; VarType t = REDT[g.below((uint32_t) REDT.size())]; int what = g.below(8);
    if ((op == ReduceOp::And || op == ReduceOp::Or) && (isf(t) || what != 1)) { oi = 0; op = ReduceOp::Add; }
    ll mx = tmax(t);
    auto range = [&](const H &x, ll &lo, ll &hi) { lo = x.lo; hi = x.hi; if (op == ReduceOp::Add) { lo = std::min(lo, lo * (ll) x.n); hi = std::max(hi, hi * (ll) x.n); } if (op == ReduceOp::Mul) { lo = isu(t) ? 0 : -16; hi = 16; } if (op == ReduceOp::Or) { ll q = 1; while (q <= hi) q *= 2; hi = q - 1; } lo = std::min(lo, 0ll); hi = std::max(hi, 0ll); };
    if (what == 0) { H x = horiz_arg(t, op); ll lo, hi; range(x, lo, hi); H y = reg(jit_var_reduce(L, t, op, x.idx), t, 1, lo, hi); pending.erase(x.id); J().str("e", "red").i("o", y.id).i("h", x.id).str("op", ON[oi]).emit(); }
    else if (what == 1 || what == 2) {
        H x = horiz_arg(t, op); uint32_t bs = g.chance(1, 4) ? (uint32_t) x.n : 1 + g.below((uint32_t) x.n); int sym = (int) g.below(3) - 1; if (sym == 1 && (!jit_can_scatter_reduce(L, t, op))) sym = 0; if (sym == -1 && !jit_can_scatter_reduce(L, t, op)) sym = 0; ll lo, hi; range(x, lo, hi);
        H y = reg(jit_var_block_reduce(op, x.idx, bs, sym), t, (x.n + bs - 1) / bs, lo, hi); pending.erase(x.id); J().str("e", "bred").i("o", y.id).i("h", x.id).str("op", ON[oi]).i("bs", bs).i("sym", sym).emit();
    } else if (what == 3 || what == 4) {
        H x = horiz_arg(t, op); uint32_t bs = g.chance(1, 3) ? (uint32_t) x.n : 1 + g.below((uint32_t) x.n); bool ex = g.chance(1, 2), rv = g.chance(1, 2); ll idn = op == ReduceOp::Add ? 0 : op == ReduceOp::Mul ? 1 : -2000000000; ll lo, hi; range(x, lo, hi);
        H y = reg(jit_var_block_prefix_reduce(op, x.idx, bs, ex, rv), t, x.n, lo, std::max(hi, op == ReduceOp::Mul ? 1ll : hi), idn < -1000 && ex); pending.erase(x.id);
        J().str("e", "pre").i("o", y.id).i("h", x.id).str("op", ON[oi]).i("bs", bs).b("ex", ex).b("rev", rv).i("idn", idn).emit();
        if (g.chance(1, 2)) observe(y);
    } else if (what == 5) {
        H a = horiz_arg(t, ReduceOp::Min); H b = find_or_make(t, a.n, isu(t) ? 0 : -3, 3); if (b.n != a.n && b.n != 1 && a.n != 1) return; ll q = std::max(std::abs(a.lo), std::abs(a.hi)) * std::max(std::abs(b.lo), std::abs(b.hi)) * (ll) std::max(a.n, b.n); if (q > mx) return; if (b.n != a.n) return;
        H y = reg(jit_var_reduce_dot(a.idx, b.idx), t, 1, isu(t) ? 0 : -q, q); pending.clear(); J().str("e", "dot").i("o", y.id).i("a", a.id).i("b", b.id).emit();
    } else if (what == 6) {
        H x = find_or_make(VarType::Bool, rnd_size(), 0, 1); pending.erase(x.id);
        if (g.chance(1, 2)) {
            int a = jit_var_any(x.idx), b = jit_var_all(x.idx); J().str("e", "any").i("h", x.id).i("any", a).i("all", b).emit();
            uint32_t ua = jit_var_any_async(L, x.idx), ub = jit_var_all_async(L, x.idx); uint8_t va = 9, vb = 9; jit_var_read(ua, 0, &va); jit_var_read(ub, 0, &vb); bool sh = jit_var_size(ua) == 1 && jit_var_size(ub) == 1 && jit_var_type(ua) == VarType::Bool; jit_var_dec_ref(ua); jit_var_dec_ref(ub);
            J().str("e", "any").i("h", x.id).i("any", sh ? va : 7).i("all", vb).emit();
        } else {
            uint32_t r = jit_var_compress(x.idx); uint32_t id = next_id++; J().str("e", "comp").i("o", id).i("h", x.id).emit(); std::vector<ll> v;
            if (r) { void *p; uint32_t d = jit_var_data(r, &p); jit_sync_thread(); for (size_t q = 0; q < jit_var_size(r); ++q) v.push_back(dec(VarType::UInt32, (uint8_t *) p + 4 * q)); jit_var_dec_ref(d); }
            J().str("e", "data").i("h", id).str("t", "u32").arr("r", v).emit(); J().str("e", "free").i("h", id).emit(); jit_var_dec_ref(r);
        }
    } else {
        size_t n = rnd_size() * (1 + g.below(3)); uint32_t bc = 1 + g.below(9); H x = new_mem(VarType::UInt32, n, 0, bc - 1); uint32_t bs = g.chance(1, 2) ? (uint32_t) n : 1 + g.below((uint32_t) n);
        void *p; uint32_t d = jit_var_data(x.idx, &p); uint32_t *perm = (uint32_t *) jit_malloc(L, n * 4, 1); bool offs = bs == n && g.chance(1, 2); uint32_t *off = offs ? (uint32_t *) jit_malloc(L, (bc * 4 + 1) * 4, 1) : nullptr;
        uint32_t u = jit_block_mkperm(L, (uint32_t *) p, (uint32_t) n, bs, bc, perm, off); jit_sync_thread(); std::vector<ll> v, ov; for (size_t i = 0; i < n; ++i) v.push_back(clampll(perm[i])); if (offs) for (uint32_t i = 0; i < u * 4; ++i) ov.push_back(i % 4 == 3 ? 0 : clampll(off[i]));
        J().str("e", "perm").i("h", x.id).i("bs", bs).arr("r", v).b("hasoff", offs).arr("off", ov).i("u", u).emit(); jit_free(perm); if (off) jit_free(off); jit_var_dec_ref(d); drop(x.id);
    }
}
static void a_flags() {
    static const JitFlag F[] = { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::ReuseIndices, JitFlag::PacketOps, JitFlag::ScatterReduceLocal, JitFlag::Debug, JitFlag::FastMath, JitFlag::LaunchBlocking, JitFlag::KernelHistory };
    switch (g.below(5)) {
        case 0: jit_llvm_set_expand_threshold(g.chance(1, 2) ? 0 : 40); nop("expand"); break;
        case 1: { uint32_t s = jit_new_scope(L); (void) s; nop("scope"); break; }
        case 2: { static const uint32_t BS[] = { 16, 32, 64, 16384, 16 }; jit_llvm_set_block_size(BS[g.below(5)]); nop("block"); break; }
        default: { JitFlag f = F[g.below(9)]; jit_set_flag(f, g.chance(f == JitFlag::Debug || f == JitFlag::LaunchBlocking || f == JitFlag::KernelHistory ? 1 : 2, 3)); if (f == JitFlag::KernelHistory) jit_kernel_history_clear(); nop("flag"); }
    }
}
static void a_mask() {
    if (cur_mask_on) { jit_var_mask_pop(L); cur_mask_on = 0; J().str("e", "mpop").emit(); return; }
    size_t n = rnd_size(); std::vector<ll> v(n); cur_mask.assign(n, 0); for (size_t i = 0; i < n; ++i) v[i] = cur_mask[i] = g.chance(2, 3); bool ml = g.chance(1, 4), mv = g.chance(3, 4); if (ml) cur_mask.assign(n, mv);
    H m = ml ? new_lit(VarType::Bool, n, mv) : new_vals(VarType::Bool, v, 0, 1); jit_var_mask_push(L, m.idx); cur_mask_on = 1; J().str("e", "mpush").i("h", m.id).emit(); drop(m.id);
}
static void a_label() {
    const H *h = pick([](const H &) { return true; }); if (!h) return; char b[32]; snprintf(b, 32, "lab%u", g.below(9)); uint32_t r = jit_var_set_label(h->idx, 1, b); H &x = hs[pos(h->id)]; jit_var_dec_ref(x.idx); x.idx = r; nop("label");
    if (g.chance(1, 4)) { jit_var_whos(); nop("whos"); } if (g.chance(1, 4)) { jit_var_graphviz(); nop("graphviz"); }
}

int main(int argc, char **argv) {
    drv_open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); profile = argv[3]; int nev = atoi(argv[4]); int sim = atoi(argv[5]); g = Rng(seed * 131 + 7);
    drv_init();
    drv_no_fp16(); if (sim) nt_set_mode(1, seed);
    jit_llvm_set_block_size(16); jit_set_flag(JitFlag::FastMath, 0);
    SZ = { 1, 1 + g.below(20), 17 + g.below(60), 1 + g.below(40) }; if (g.chance(1, 4)) SZ.push_back(16 * (1 + g.below(5)));
    struct A { int w; std::function<void()> f; }; std::vector<A> acts;
    auto W = [&](int w, std::function<void()> f) { if (w) acts.push_back({ w, f }); };
    bool lazy = profile == "lazy", cow = profile == "cow", ga = profile == "gather", red = profile == "red", hz = profile == "horiz";
    W(lazy ? 10 : 5, a_new); W(lazy ? 50 : cow ? 16 : 10, a_op); W(lazy ? 14 : 6, a_eval); W(10, a_obs); W(cow ? 14 : 6, a_dup); W(4, a_free); W(4, a_resize);
    W(cow ? 8 : lazy ? 2 : 0, a_shrink); W(ga ? 40 : lazy ? 10 : 6, a_gather); W(ga ? 14 : 2, a_gpack); W(cow ? 24 : red ? 8 : lazy ? 6 : 3, [] { a_scatter(false, true); }); W(red ? 30 : cow ? 8 : lazy ? 3 : 1, [] { a_scatter(false, false); });
    W(cow ? 5 : red ? 5 : 1, [] { a_scatter(true, true); }); W(red ? 10 : cow ? 2 : 1, [] { a_scatter(true, false); }); W(red ? 8 : cow ? 3 : 0, a_inc); W(red ? 6 : cow ? 3 : 0, [] { a_exch(false); }); W(red ? 8 : cow ? 3 : 0, [] { a_exch(true); });
    W(cow ? 10 : 2, a_write); W(ga || lazy ? 8 : 2, a_move); W(hz ? 60 : 1, a_horiz); W(4, a_flags); W(ga ? 6 : red ? 3 : 0, a_mask); W(lazy ? 4 : 1, a_label); W(lazy ? 1 : 0, a_many);
    int tot = 0; for (auto &a : acts) tot += a.w;
    for (int i = 0; i < nev; ++i) {
        int r = g.below(tot); for (auto &a : acts) { if (r < a.w) { a.f(); break; } r -= a.w; }
        gc(); if (sim && g.chance(1, 6)) nt_pump(1 + g.below(6));
    }
    if (cur_mask_on) a_mask();
    { std::vector<H> all = hs; for (auto &h : all) observe(h); }
    while (!hs.empty()) drop(hs.back().id);
    jit_eval(); jit_sync_thread();
    bool clean = strstr(jit_var_whos(), "No variables registered") != nullptr;
    J().str("e", "end").b("ok", clean).emit();
    fclose(out_f); out_f = nullptr;
    nt_set_mode(0, 0); jit_shutdown(0);
    return 0;
}
