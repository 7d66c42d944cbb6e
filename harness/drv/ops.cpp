// Driver for the operation semantics spec (spec/Ops*.tla): evaluates every
// elementary operation on edge-case and random operands in many different
// "evaluation styles" and records the distinct results per operand tuple.
//
// usage: drv_ops OUT SEED TYPE NLIT NRAND FASTMATH
#include "drv.h"
#include <unordered_map>

typedef std::vector<uint8_t> Bytes;

static VarType T; static size_t S;
static const char *tname(VarType t) {
    switch (t) {
        case VarType::Bool: return "b1"; case VarType::Int8: return "i8"; case VarType::UInt8: return "u8";
        case VarType::Int16: return "i16"; case VarType::UInt16: return "u16";
        case VarType::Int32: return "i32"; case VarType::UInt32: return "u32";
        case VarType::Int64: return "i64"; case VarType::UInt64: return "u64";
        case VarType::Float16: return "f16"; case VarType::Float32: return "f32"; case VarType::Float64: return "f64";
        default: return "?";
    }
}
static bool is_float(VarType t) { return t >= VarType::Float16 && t <= VarType::Float64; }
static bool is_bool(VarType t) { return t == VarType::Bool; }
static bool is_uint(VarType t) { return t == VarType::UInt8 || t == VarType::UInt16 || t == VarType::UInt32 || t == VarType::UInt64; }

struct Op { const char *name; int n; int bool_mask; bool bool_res; JitOp op; bool ok; };

// Result store: key = op | args  ->  set of (result bytes -> mode list)
struct Rec { std::string op, t, rt; std::vector<std::pair<VarType, Bytes>> a; std::map<Bytes, std::set<std::string>> r; };
static std::map<std::string, Rec> recs;

static void note(const std::string &op, VarType rt, const std::vector<std::pair<VarType, Bytes>> &args, const Bytes &res, const std::string &mode) {
    std::string k = op; k += '/'; k += tname(T); k += '/'; k += tname(rt);
    for (auto &a : args) { k += '|'; k.append((const char *) a.second.data(), a.second.size()); k += tname(a.first); }
    Rec &r = recs[k];
    if (r.op.empty()) { r.op = op; r.t = tname(T); r.rt = tname(rt); r.a = args; }
    r.r[res].insert(mode);
}

static double h2d(uint16_t u) { _Float16 h; memcpy(&h, &u, 2); return (double) (float) h; }
static uint64_t rd(const Bytes &b) { uint64_t v = 0; memcpy(&v, b.data(), b.size()); return v; }
static Bytes mk(uint64_t v, size_t s) { Bytes b(s); memcpy(b.data(), &v, s); return b; }

static std::vector<Bytes> edges(VarType t) {
    std::vector<uint64_t> v; size_t s = jit_type_size(t); unsigned bits = (unsigned) s * 8;
    auto F = [&](double d) {
        if (t == VarType::Float32) { float f = (float) d; uint32_t u; memcpy(&u, &f, 4); v.push_back(u); }
        else if (t == VarType::Float64) { uint64_t u; memcpy(&u, &d, 8); v.push_back(u); }
        else { _Float16 h = (_Float16) d; uint16_t u; memcpy(&u, &h, 2); v.push_back(u); }
    };
    if (is_bool(t)) { v = { 0, 1 }; }
    else if (is_float(t)) {
        for (double d : { 0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.5, 1.5, 0.1, -7.0, 127.75, 255.0 }) F(d);
        F(INFINITY); F(-INFINITY); F(NAN);
        if (t == VarType::Float16) { for (uint64_t u : { 1ull, 0x3ffull, 0x400ull, 0x7bffull, 0xfbffull, 0x8001ull, 0x3bffull, 0x3c01ull }) v.push_back(u); }
        if (t == VarType::Float32) { for (uint64_t u : { 1ull, 0x7fffffull, 0x800000ull, 0x7f7fffffull, 0xff7fffffull, 0x80000001ull, 0x3f7fffffull, 0x3f800001ull, 0x4b7fffffull, 0x4f000000ull, 0x5f000000ull, 0x4effffffull, 0x33800000ull, 0x33000000ull }) v.push_back(u); }
        if (t == VarType::Float64) { for (uint64_t u : { 1ull, 0xfffffffffffffull, 0x10000000000000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x3fefffffffffffffull, 0x3ff0000000000001ull, 0x433fffffffffffffull, 0x41e0000000000000ull, 0x41dfffffffc00000ull }) v.push_back(u); }
    } else {
        uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
        for (uint64_t u : std::vector<uint64_t>{ 0ull, 1ull, 2ull, 3ull, 7ull, 8ull, 10ull, 100ull, m, m - 1, m - 2, m >> 1, (m >> 1) + 1, (m >> 1) - 1, (m >> 2) + 1, m - 6, 0x55ull, (uint64_t) bits - 1, 16ull }) v.push_back(u & m);
        if (bits > 8) v.push_back(0x80), v.push_back(0xff00 & m), v.push_back(0x1234 & m), v.push_back(256);
        if (bits > 16) v.push_back(0xffff), v.push_back(0x10000 & m), v.push_back(0xdeadbeef & m), v.push_back(0x01000000);
        if (bits > 32) v.push_back(0xffffffffull), v.push_back(0x100000000ull), v.push_back(0x123456789abcdef0ull), v.push_back(1ull << 40);
    }
    std::vector<Bytes> r; std::set<uint64_t> seen;
    for (uint64_t u : v) if (seen.insert(u).second) r.push_back(mk(u, s));
    return r;
}

static Bytes rnd(Rng &g, VarType t) {
    size_t s = jit_type_size(t);
    if (is_bool(t)) return mk(g.below(2), s);
    uint64_t u = g.next();
    if (is_float(t)) {
        // Keep exponents near each other to exercise rounding; sometimes fully random
        if (g.chance(2, 3)) {
            if (t == VarType::Float16) u = (u & 0x83ff) | ((uint64_t) (13 + g.below(5)) << 10);
            if (t == VarType::Float32) u = (u & 0x807fffff) | ((uint64_t) (120 + g.below(14)) << 23);
            if (t == VarType::Float64) u = (u & 0x800fffffffffffffull) | ((uint64_t) (1015 + g.below(16)) << 52);
        }
    } else if (g.chance(1, 3)) u >>= g.below((uint32_t) s * 8);
    return mk(u, s);
}

static uint32_t lit(VarType t, const Bytes &b, size_t size = 1) { return jit_var_literal(L, t, b.data(), size, 0); }
static uint32_t arr(VarType t, const std::vector<Bytes> &v) {
    Bytes buf; for (auto &b : v) buf.insert(buf.end(), b.begin(), b.end());
    return jit_var_mem_copy(L, t, buf.data(), v.size(), 1);
}

struct Pending { std::string op; VarType rt; std::vector<std::pair<VarType, std::vector<Bytes>>> args; uint32_t idx; std::string mode; };
static std::vector<Pending> pend;
static std::vector<uint32_t> inputs;

static const char *opname(const Op &o) { return o.name; }

static void flush() {
    for (auto &p : pend) if (p.idx) jit_var_schedule(p.idx);
    jit_eval();
    for (auto &p : pend) {
        if (!p.idx) continue;
        size_t n = 1; for (auto &a : p.args) n = std::max(n, a.second.size());
        VarType rt = jit_var_type(p.idx); size_t rs = jit_type_size(rt);
        if (jit_var_size(p.idx) != n || rt != p.rt) {
            J().str("e", "shape").str("op", p.op).str("t", tname(T)).str("mode", p.mode).i("size", jit_var_size(p.idx)).i("want", n).str("rt", tname(rt)).emit();
            jit_var_dec_ref(p.idx); continue;
        }
        uint32_t ev = p.idx; void *ptr = nullptr; uint32_t ref = jit_var_data(ev, &ptr);
        jit_sync_thread();
        for (size_t i = 0; i < n; ++i) {
            std::vector<std::pair<VarType, Bytes>> a;
            for (auto &x : p.args) a.push_back({ x.first, x.second[x.second.size() == 1 ? 0 : i] });
            Bytes r(rs); memcpy(r.data(), (uint8_t *) ptr + i * rs, rs);
            note(p.op, p.rt, a, r, p.mode);
        }
        jit_var_dec_ref(ref);
        jit_var_dec_ref(p.idx);
    }
    pend.clear();
    for (uint32_t i : inputs) jit_var_dec_ref(i);
    inputs.clear();
}

static uint32_t apply(JitOp op, const uint32_t *d) { return jit_var_op(op, d); }

static void add(const Op &o, VarType rt, std::vector<std::pair<VarType, std::vector<Bytes>>> args, std::vector<uint32_t> idx, const std::string &mode) {
    uint32_t r = apply(o.op, idx.data());
    pend.push_back({ o.name, rt, std::move(args), r, mode });
    if (pend.size() > 300) { flush(); }
}

// Random chains of operations whose intermediate results stay unevaluated while the chain is traced.
// Every operation is recorded with the values that its operands turned out to have.
struct Node { uint32_t idx; VarType t; bool lit; std::vector<Bytes> v; };

static bool conv_ok(VarType a, VarType b, const Bytes &x) {
    if (!is_float(a) || is_float(b) || is_bool(b)) return true;
    double d; if (a == VarType::Float32) { float f; memcpy(&f, x.data(), 4); d = f; } else if (a == VarType::Float64) memcpy(&d, x.data(), 8); else d = h2d((uint16_t) rd(x));
    if (!(d == d)) return false;
    d = std::trunc(d); size_t bits = jit_type_size(b) * 8;
    double lo = is_uint(b) ? 0 : -std::ldexp(1.0, bits - 1), hi = std::ldexp(1.0, is_uint(b) ? bits : bits - 1);
    return d >= lo && d < hi;
}

static void chain(Rng &g, const std::vector<VarType> &types, uint32_t len, bool casts) {
    size_t N = 5 + g.below(20); std::vector<Node> pool; uint32_t fs = jit_flags();
    struct Ev { std::string op; VarType t, rt; std::vector<size_t> a; size_t r; std::string mode; }; std::vector<Ev> ev;
    std::map<VarType, std::vector<Bytes>> E;
    auto read = [&](Node &n) {
        void *ptr = nullptr; uint32_t ref = jit_var_data(n.idx, &ptr); jit_sync_thread(); size_t s = jit_type_size(n.t), k = jit_var_size(n.idx);
        n.v.clear(); for (size_t i = 0; i < k; ++i) { Bytes b(s); memcpy(b.data(), (uint8_t *) ptr + i * s, s); n.v.push_back(b); }
        jit_var_dec_ref(ref);
    };
    auto leaf = [&](VarType t) {
        if (!E.count(t)) E[t] = edges(t);
        Node n; n.t = t; n.lit = g.chance(2, 5);
        auto val = [&] { return g.chance(1, 2) ? E[t][g.below((uint32_t) E[t].size())] : rnd(g, t); };
        if (n.lit) { n.v = { val() }; n.idx = lit(t, n.v[0], g.chance(1, 4) ? N : 1); }
        else { size_t k = g.chance(1, 6) ? 1 : N; for (size_t i = 0; i < k; ++i) n.v.push_back(val()); n.idx = arr(t, n.v); }
        pool.push_back(n); return pool.size() - 1;
    };
    auto operand = [&](VarType t) -> size_t {
        if (g.chance(1, 4)) return leaf(t);
        std::vector<size_t> c; for (size_t i = 0; i < pool.size(); ++i) if (pool[i].t == t) c.push_back(i);
        if (c.empty()) return leaf(t);
        if (g.chance(1, 2)) return c.back();
        return g.pick(c);
    };
    struct D { const char *n; int k; JitOp op; int dom; }; // dom: 1 int, 2 float, 4 bool
    static const std::vector<D> ds = {
        {"neg",1,JitOp::Neg,3},{"not",1,JitOp::Not,5},{"abs",1,JitOp::Abs,3},{"sqrt",1,JitOp::Sqrt,2},{"rcp",1,JitOp::Rcp,2},
        {"ceil",1,JitOp::Ceil,2},{"floor",1,JitOp::Floor,2},{"round",1,JitOp::Round,2},{"trunc",1,JitOp::Trunc,2},
        {"popc",1,JitOp::Popc,1},{"clz",1,JitOp::Clz,1},{"ctz",1,JitOp::Ctz,1},{"brev",1,JitOp::Brev,1},
        {"add",2,JitOp::Add,3},{"sub",2,JitOp::Sub,3},{"mul",2,JitOp::Mul,3},{"div",2,JitOp::Div,3},{"mod",2,JitOp::Mod,1},
        {"mulhi",2,JitOp::MulHi,8},{"mulwide",2,JitOp::MulWide,16},{"min",2,JitOp::Min,3},{"max",2,JitOp::Max,3},{"fmin",2,JitOp::FMin,3},{"fmax",2,JitOp::FMax,3},
        {"eq",2,JitOp::Eq,7},{"neq",2,JitOp::Neq,7},{"lt",2,JitOp::Lt,3},{"le",2,JitOp::Le,3},{"gt",2,JitOp::Gt,3},{"ge",2,JitOp::Ge,3},
        {"and",2,JitOp::And,7},{"or",2,JitOp::Or,7},{"xor",2,JitOp::Xor,7},{"shl",2,JitOp::Shl,1},{"shr",2,JitOp::Shr,1},
        {"fma",3,JitOp::Fma,3},{"select",3,JitOp::Select,7},{"and_mask",2,JitOp::And,3} };
    for (VarType t : types) { leaf(t); }
    leaf(VarType::Bool);
    for (uint32_t q = 0; q < len; ++q) {
        VarType t = g.pick(types); size_t s = jit_type_size(t);
        Ev e; uint32_t r = 0; e.t = t;
        if (g.chance(1, 12)) jit_set_flag(JitFlag::ConstantPropagation, g.chance(3, 4));
        if (g.chance(1, 12)) jit_set_flag(JitFlag::ValueNumbering, g.chance(3, 4));
        if (casts && g.chance(1, 3)) {
            VarType t2 = g.pick(types); if (t2 == t) continue;
            size_t a = operand(t);
            if (is_float(t) && !is_float(t2) && !is_bool(t2)) { // keep the conversion in range
                double hi = std::min(std::ldexp(1.0, (int) jit_type_size(t2) * 8 - 1 - (is_uint(t2) ? 0 : 1)), t == VarType::Float16 ? 65000.0 : 1e30), lo = is_uint(t2) ? 0 : -hi;
                auto mkf = [&](double d) { Node z; z.t = t; z.lit = true; if (t == VarType::Float16) { _Float16 h = (_Float16) d; uint16_t u; memcpy(&u, &h, 2); z.v = { mk(u, 2) }; } else if (t == VarType::Float32) { float f = (float) d; uint32_t u; memcpy(&u, &f, 4); z.v = { mk(u, 4) }; } else { uint64_t u; memcpy(&u, &d, 8); z.v = { mk(u, 8) }; } z.idx = lit(t, z.v[0]); pool.push_back(z); return pool.size() - 1; };
                auto op2 = [&](const char *n, JitOp op, size_t x, size_t y) { uint32_t i[2] = { pool[x].idx, pool[y].idx }; Ev f; f.op = n; f.t = f.rt = t; f.a = { x, y }; for (int k = 0; k < 2; ++k) f.mode += jit_var_state(i[k]) == VarState::Literal ? 'L' : 'V'; Node z; z.idx = jit_var_op(op, i); z.t = t; z.lit = false; pool.push_back(z); f.r = pool.size() - 1; ev.push_back(f); return f.r; };
                a = op2("fmin", JitOp::FMin, a, mkf(hi)); a = op2("fmax", JitOp::FMax, a, mkf(lo));
                static const D rd4[4] = { {"ceil",1,JitOp::Ceil,2},{"floor",1,JitOp::Floor,2},{"round",1,JitOp::Round,2},{"trunc",1,JitOp::Trunc,2} };
                if (g.chance(2, 3)) { const D &d = rd4[g.below(4)]; Ev f; f.op = d.n; f.t = f.rt = t; f.a = { a }; f.mode = jit_var_state(pool[a].idx) == VarState::Literal ? "L" : "V"; Node z; z.idx = jit_var_op(d.op, &pool[a].idx); z.t = t; z.lit = false; pool.push_back(z); f.r = a = pool.size() - 1; ev.push_back(f); }
            }
            bool bc = jit_type_size(t2) == s && !is_bool(t) && !is_bool(t2) && g.chance(1, 2);
            r = jit_var_cast(pool[a].idx, t2, bc); e.op = bc ? "bitcast" : "cast"; e.rt = t2; e.a = { a };
            e.mode = "V";
        } else {
            const D &d = g.pick(ds); int cls = is_bool(t) ? 4 : is_float(t) ? 2 : 1; std::string n = d.n;
            if (!is_bool(t) && !is_float(t) && (s == 4 || s == 8)) cls |= 8; if ((cls & 1) && s == 4) cls |= 16;
            if (!(d.dom & cls) || n == "mulwide") continue;
            if (t == VarType::Float16 && (n == "lt" || n == "le" || n == "gt" || n == "ge")) continue; // (see drv_no_fp16(); single comparisons are checked elsewhere)
            VarType at = n == "select" ? VarType::Bool : t;
            e.a.push_back(operand(at)); if (d.k > 1) e.a.push_back(operand(n == "and_mask" ? VarType::Bool : t)); if (d.k > 2) e.a.push_back(operand(t));
            if (n == "shl" || n == "shr") { Node z; z.t = t; z.lit = true; z.v = { mk(g.below((uint32_t) s * 8), s) }; z.idx = lit(t, z.v[0]); pool.push_back(z); e.a[1] = pool.size() - 1; }
            uint32_t i[3] = {}; for (size_t k = 0; k < e.a.size(); ++k) { i[k] = pool[e.a[k]].idx; e.mode += jit_var_state(i[k]) == VarState::Literal ? 'L' : 'V'; }
            r = jit_var_op(d.op, i); e.op = d.n; bool cmp = d.op >= JitOp::Eq && d.op <= JitOp::Ge; (void) cmp;
            e.rt = (n == "eq" || n == "neq" || n == "lt" || n == "le" || n == "gt" || n == "ge") ? VarType::Bool : t;
        }
        size_t want = 1; for (size_t a : e.a) want = std::max(want, (size_t) jit_var_size(pool[a].idx));
        if (!r) continue;
        if (jit_var_size(r) != want || jit_var_type(r) != e.rt) J().str("e", "shape").str("op", e.op).str("t", tname(t)).str("mode", e.mode).i("size", jit_var_size(r)).i("want", want).str("rt", tname(jit_var_type(r))).emit();
        Node z; z.idx = r; z.t = e.rt; z.lit = false; pool.push_back(z); e.r = pool.size() - 1; ev.push_back(e);
        if (g.chance(1, 25)) { jit_var_schedule(pool[g.below((uint32_t) pool.size())].idx); if (g.chance(1, 2)) jit_eval(); }
    }
    jit_set_flags(fs);
    // evaluate the results backwards or all at once; intermediate values may be recomputed in several kernels
    int style = g.below(3);
    if (style == 0) for (auto &n : pool) jit_var_schedule(n.idx);
    if (style == 1) for (auto &n : pool) if (g.chance(1, 2)) jit_var_schedule(n.idx);
    jit_eval();
    for (size_t i = pool.size(); i-- > 0;) read(pool[i]);
    for (auto &e : ev) {
        size_t n = 1; for (size_t a : e.a) n = std::max(n, pool[a].v.size());
        const Node &r = pool[e.r]; T = e.t; S = jit_type_size(T);
        for (size_t i = 0; i < std::min(n, r.v.size()); ++i) {
            std::vector<std::pair<VarType, Bytes>> a; for (size_t k : e.a) a.push_back({ pool[k].t, pool[k].v[pool[k].v.size() == 1 ? 0 : i] });
            if ((e.op == "shl" || e.op == "shr") && rd(a[1].second) >= S * 8) continue;
            if (e.op == "cast" && !conv_ok(e.t, e.rt, a[0].second)) continue;
            // LLVM leaves the treatment of signaling NaNs open
            bool snan = false; for (auto &x : a) if (is_float(x.first)) { size_t z = jit_type_size(x.first), mb = z == 2 ? 10 : z == 4 ? 23 : 52; uint64_t u = rd(x.second), ex = (u << (64 - z * 8)) << 1 >> (mb + 1 + 64 - z * 8), m = u & ((1ull << mb) - 1); snan |= ex == ((1ull << (z * 8 - 1 - mb)) - 1) && m && !(m >> (mb - 1)); }
            if (snan) continue;
            // payload and sign of a NaN may differ between the fused computation and the stored operand
            if (is_float(e.t) && (e.op == "and" || e.op == "or" || e.op == "xor" || e.op == "bitcast" || e.op == "copysign" || e.op == "select" || e.op == "and_mask")) {
                bool nan = false; for (auto &x : a) if (is_float(x.first)) { double d; if (x.first == VarType::Float32) { float f; memcpy(&f, x.second.data(), 4); d = f; } else if (x.first == VarType::Float64) memcpy(&d, x.second.data(), 8); else d = h2d((uint16_t) rd(x.second)); nan |= d != d; }
                if (nan) continue;
            }
            note(e.op, e.rt, a, r.v[i], e.mode);
        }
    }
    for (auto &n : pool) jit_var_dec_ref(n.idx);
}

int main(int argc, char **argv) {
    drv_open(argv[1]);
    uint64_t seed = strtoull(argv[2], 0, 10);
    std::string ty = argv[3]; int nlit = atoi(argv[4]), nrand = atoi(argv[5]); bool fastmath = atoi(argv[6]) != 0;
    std::string what = argc > 7 ? argv[7] : "all"; bool do_ops = what != "cast", do_casts = what != "op";
    for (int i = 0; i < (int) VarType::Count; ++i) if (ty == tname((VarType) i)) T = (VarType) i;
    S = jit_type_size(T);
    drv_init();
    jit_set_flag(JitFlag::FastMath, fastmath);
    Rng g(seed * 77 + (uint64_t) T);
    if (what == "chain") {
        std::vector<VarType> I = { VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64 },
                             F = { VarType::Float16, VarType::Float32, VarType::Float64 };
        for (int q = 0; q < nlit; ++q) {
            if (ty == "int") chain(g, { g.pick(I), VarType::Bool }, 10 + g.below(30), false);
            else if (ty == "flt") chain(g, { g.pick(F), VarType::Bool }, 10 + g.below(30), false);
            else chain(g, { g.pick(F), g.pick(F), g.pick(I), g.pick(I), VarType::Bool }, 10 + g.below(30), true);
        }
        do_ops = do_casts = false;
    }
    if (do_ops || do_casts) {
    bool fl = is_float(T), bo = is_bool(T), in = !fl && !bo, w32 = S == 4, wide = in && (S == 4 || S == 8);
    std::vector<Op> ops;
    auto O = [&](const char *n, int k, JitOp op, bool ok, bool bres = false) { ops.push_back({ n, k, 0, bres, op, ok }); };
    O("neg", 1, JitOp::Neg, !bo); O("not", 1, JitOp::Not, !fl); O("abs", 1, JitOp::Abs, !bo);
    O("sqrt", 1, JitOp::Sqrt, fl); O("rcp", 1, JitOp::Rcp, fl); 
    O("ceil", 1, JitOp::Ceil, fl); O("floor", 1, JitOp::Floor, fl); O("round", 1, JitOp::Round, fl); O("trunc", 1, JitOp::Trunc, fl);
    O("popc", 1, JitOp::Popc, in); O("clz", 1, JitOp::Clz, in); O("ctz", 1, JitOp::Ctz, in); O("brev", 1, JitOp::Brev, in);
    O("add", 2, JitOp::Add, !bo); O("sub", 2, JitOp::Sub, !bo); O("mul", 2, JitOp::Mul, !bo); O("div", 2, JitOp::Div, !bo);
    O("mod", 2, JitOp::Mod, in); O("mulhi", 2, JitOp::MulHi, wide); O("mulwide", 2, JitOp::MulWide, in && w32);
    O("min", 2, JitOp::Min, !bo); O("max", 2, JitOp::Max, !bo); O("fmin", 2, JitOp::FMin, !bo); O("fmax", 2, JitOp::FMax, !bo);
    O("copysign", 2, JitOp::Copysign, fl || (in && !is_uint(T)));
    O("eq", 2, JitOp::Eq, true, true); O("neq", 2, JitOp::Neq, true, true);
    O("lt", 2, JitOp::Lt, !bo, true); O("le", 2, JitOp::Le, !bo, true); O("gt", 2, JitOp::Gt, !bo, true); O("ge", 2, JitOp::Ge, !bo, true);
    O("and", 2, JitOp::And, true); O("or", 2, JitOp::Or, true); O("xor", 2, JitOp::Xor, true);
    O("shl", 2, JitOp::Shl, in); O("shr", 2, JitOp::Shr, in);
    O("fma", 3, JitOp::Fma, !bo);
    O("select", 3, JitOp::Select, true);

    std::vector<Bytes> E = edges(T);
    std::vector<VarType> all = { VarType::Bool, VarType::Int8, VarType::UInt8, VarType::Int16, VarType::UInt16, VarType::Int32, VarType::UInt32, VarType::Int64, VarType::UInt64, VarType::Float16, VarType::Float32, VarType::Float64 };

    auto domain = [&](const Op &o, const std::vector<Bytes> &a, const std::vector<Bytes> &b) {
        // Shifts by >= width are outside of the documented domain
        (void) a; std::string n = o.name; size_t k = b.size();
        std::vector<bool> ok(std::max(a.size(), k), true);
        for (size_t i = 0; i < ok.size(); ++i) {
            uint64_t v = rd(b[k == 1 ? 0 : i]);
            if (n == "shl" || n == "shr") ok[i] = v < S * 8;
        }
        return ok;
    };
    auto filt = [&](const std::vector<Bytes> &v, const std::vector<bool> &ok) {
        if (v.size() == 1 && ok.size() != 1) return v;
        std::vector<Bytes> r; for (size_t i = 0; i < v.size(); ++i) if (ok[i]) r.push_back(v[i]); return r;
    };

    std::vector<Bytes> MB = { mk(0, 1), mk(1, 1) };
    auto rtype = [&](const Op &o) { return o.bool_res ? VarType::Bool : (std::string(o.name) == "mulwide" ? (T == VarType::UInt32 ? VarType::UInt64 : VarType::Int64) : T); };

    // All pairs of edges + random pairs
    std::vector<Bytes> PA, PB, PC;
    size_t ne = E.size();
    for (size_t i = 0; i < ne; ++i) for (size_t j = 0; j < ne; ++j) {
        if (nlit < 100 && !bo && !g.chance(2, 5) && i != j) continue;
        PA.push_back(E[i]); PB.push_back(E[j]); PC.push_back(E[(i * 7 + j * 3 + g.below(3)) % ne]); }
    for (int i = 0; i < nrand; ++i) { PA.push_back(rnd(g, T)); PB.push_back(g.chance(1, 8) ? PA.back() : rnd(g, T)); PC.push_back(rnd(g, T)); }
    // pad to a size not divisible by the vector width now and then
    if (PA.size() % 16 == 0) { PA.push_back(E[0]); PB.push_back(E[0]); PC.push_back(E[0]); }
    std::vector<Bytes> MA; for (size_t i = 0; i < PA.size(); ++i) MA.push_back(MB[g.below(2)]);

    for (const Op &o : ops) {
        if (!o.ok || !do_ops) continue;
        VarType rt = rtype(o); std::string nm = o.name; bool sel = nm == "select";
        std::vector<Bytes> a = PA, b = PB, c = PC, m = MA;
        if (o.n == 2) { auto ok = domain(o, a, b); a = filt(a, ok); b = filt(b, ok); }
        auto AT = sel ? VarType::Bool : T;
        auto mkargs = [&](const std::vector<Bytes> &x, const std::vector<Bytes> &y, const std::vector<Bytes> &z) {
            std::vector<std::pair<VarType, std::vector<Bytes>>> r; r.push_back({ AT, x });
            if (o.n > 1) r.push_back({ T, y }); if (o.n > 2) r.push_back({ T, z }); return r;
        };
        const std::vector<Bytes> &fa = sel ? m : a;
        // (1) all operands evaluated arrays
        {
            uint32_t i0 = arr(AT, fa), i1 = o.n > 1 ? arr(T, b) : 0, i2 = o.n > 2 ? arr(T, c) : 0;
            inputs.push_back(i0); if (i1) inputs.push_back(i1); if (i2) inputs.push_back(i2);
            add(o, rt, mkargs(fa, b, c), { i0, i1, i2 }, "VV");
            // (2) operands computed in the same kernel (double reverse)
            uint32_t k0 = jit_var_reverse(i0); inputs.push_back(k0);
            std::vector<Bytes> ra(fa.rbegin(), fa.rend()), rb(b.rbegin(), b.rend()), rc(c.rbegin(), c.rend());
            uint32_t k1 = 0, k2 = 0;
            if (o.n > 1) { k1 = jit_var_reverse(i1); inputs.push_back(k1); }
            if (o.n > 2) { k2 = jit_var_reverse(i2); inputs.push_back(k2); }
            add(o, rt, mkargs(ra, rb, rc), { k0, k1, k2 }, "KK");
        }
        // (3) literal combinations
        int nl = nlit;
        for (int q = 0; q < nl; ++q) {
            Bytes l = q % 3 == 2 && !bo ? rnd(g, T) : E[nlit >= (int) ne ? (q % ne) : g.below((uint32_t) ne)];
            Bytes l2 = E[g.below((uint32_t) ne)], l3 = E[g.below((uint32_t) ne)]; Bytes lm = MB[g.below(2)];
            std::vector<Bytes> one = { l }, two = { l2 }, three = { l3 }, onem = { lm };
            if (o.n == 1) {
                uint32_t x = lit(T, l); inputs.push_back(x);
                add(o, rt, mkargs(one, {}, {}), { x, 0, 0 }, "L");
                uint32_t y = jit_var_literal(L, T, l.data(), 1, 1); inputs.push_back(y);
                add(o, rt, mkargs(one, {}, {}), { y, 0, 0 }, "O");
            } else if (o.n == 2) {
                std::vector<Bytes> ea = E; for (int z = 0; z < 3; ++z) ea.push_back(rnd(g, T)); ea.push_back(l);
                if (q == 0) for (size_t u = 0; u < ne; ++u) for (int side = 0; side < 2; ++side) { // every special literal
                    std::vector<Bytes> ls = { E[u] }, w; for (int z = 0; z < 6; ++z) w.push_back(z < 4 ? E[g.below((uint32_t) ne)] : rnd(g, T));
                    auto ok = side ? domain(o, w, ls) : domain(o, ls, w); if (side) w = filt(w, ok); else w = filt(w, ok);
                    if (w.empty()) continue;
                    uint32_t va = arr(T, w), lv = lit(T, ls[0]); inputs.push_back(va); inputs.push_back(lv);
                    add(o, rt, side ? mkargs(w, ls, {}) : mkargs(ls, w, {}), { side ? va : lv, side ? lv : va, 0 }, side ? "VL" : "LV");
                }
                for (int side = 0; side < 2; ++side) {
                    const auto &X = side ? ea : one, &Y = side ? one : ea;
                    auto ok = domain(o, X, Y);
                    std::vector<Bytes> x2 = filt(X, ok), y2 = filt(Y, ok);
                    if (X.size() == 1 && ok.size() > 1) x2 = X; 
                    if (x2.empty() || y2.empty()) continue;
                    if (side == 1 && !ok.empty() && (nm == "shl" || nm == "shr" || nm == "div" || nm == "mod") ) { bool any = false; for (bool t : ok) any |= t; if (!any) continue; }
                    uint32_t va = arr(T, side ? x2 : y2); inputs.push_back(va);
                    uint32_t lv = lit(T, l); inputs.push_back(lv);
                    add(o, rt, mkargs(x2, y2, {}), { side ? va : lv, side ? lv : va, 0 }, side ? "VL" : "LV");
                    uint32_t ov = jit_var_literal(L, T, l.data(), 1, 1); inputs.push_back(ov);
                    add(o, rt, mkargs(x2, y2, {}), { side ? va : ov, side ? ov : va, 0 }, side ? "VO" : "OV");
                    // literal-literal: fold one by one
                    size_t n = std::max(x2.size(), y2.size());
                    for (size_t z = 0; z < n; z += 1 + g.below(4)) {
                        std::vector<Bytes> xa = { x2[x2.size() == 1 ? 0 : z] }, ya = { y2[y2.size() == 1 ? 0 : z] };
                        uint32_t u = lit(T, xa[0]), w = lit(T, ya[0]); inputs.push_back(u); inputs.push_back(w);
                        add(o, rt, mkargs(xa, ya, {}), { u, w, 0 }, "LL");
                    }
                }
                // same operand twice
                if (q == 0) {
                    auto ok = domain(o, PA, PA); std::vector<Bytes> s = filt(PA, ok);
                    if (!s.empty()) { uint32_t v = arr(T, s); inputs.push_back(v); add(o, rt, mkargs(s, s, {}), { v, v, 0 }, "SS"); }
                }
            } else {
                if (q == 0) { // every combination of special literals
                    std::vector<Bytes> sp; size_t ns = bo ? 2 : fl ? 9 : 5;
                    if (fl) { for (double d : { 0.0, -0.0, 1.0, -1.0, 2.0, -2.5, (double) INFINITY, (double) -INFINITY, (double) NAN }) { if (S == 2) { _Float16 h = (_Float16) d; uint16_t u; memcpy(&u, &h, 2); sp.push_back(mk(u, 2)); } else if (S == 4) { float f = (float) d; uint32_t u; memcpy(&u, &f, 4); sp.push_back(mk(u, 4)); } else { uint64_t u; memcpy(&u, &d, 8); sp.push_back(mk(u, 8)); } } }
                    else { sp = { mk(0, S), mk(1, S) }; if (!bo) { sp.push_back(mk(2, S)); sp.push_back(mk(~0ull, S)); sp.push_back(mk(1ull << (S * 8 - 1), S)); } }
                    std::vector<Bytes> v1 = sp, v2, m1; for (size_t z = 0; z < 3; ++z) v1.push_back(rnd(g, T)); for (size_t z = 0; z < v1.size(); ++z) { v2.push_back(v1[(z * 5 + 3) % v1.size()]); m1.push_back(MB[z & 1]); }
                    for (int mask = 1; mask < 7; ++mask) for (size_t u = 0; u < ns * ns; ++u) {
                        int cnt = __builtin_popcount(mask); if (cnt == 1 && u >= ns) continue;
                        size_t c0 = u % ns, c1 = u / ns; std::vector<Bytes> ar[3]; uint32_t ix[3]; std::string md; int used = 0;
                        for (int k = 0; k < 3; ++k) {
                            bool bk = sel && k == 0; VarType kt = bk ? VarType::Bool : T;
                            if (mask >> k & 1) { size_t c = used++ ? c1 : c0; ar[k] = { bk ? MB[c & 1] : sp[c] }; ix[k] = lit(kt, ar[k][0]); md += 'L'; }
                            else { ar[k] = bk ? m1 : (k == 2 || (k == 1 && !(mask & 1))) ? v2 : v1; ix[k] = arr(kt, ar[k]); md += 'V'; }
                            inputs.push_back(ix[k]);
                        }
                        if (sel && (mask & 1) && c0 > 1) { continue; }
                        add(o, rt, mkargs(ar[0], ar[1], ar[2]), { ix[0], ix[1], ix[2] }, md);
                    }
                }
                std::vector<Bytes> ea = E, eb, ec, em; for (size_t z = 0; z < ea.size(); ++z) { eb.push_back(g.chance(1, 5) ? rnd(g, T) : E[g.below(ne)]); ec.push_back(E[g.below(ne)]); em.push_back(MB[g.below(2)]); }
                for (int mask = 1; mask < 8; ++mask) {
                    if (q > 1 && mask != 1 + (q % 7)) continue;
                    const std::vector<Bytes> &X = (mask & 1) ? (sel ? onem : one) : (sel ? em : ea), &Y = (mask & 2) ? two : eb, &Z = (mask & 4) ? three : ec;
                    uint32_t x = (mask & 1) ? lit(AT, X[0]) : arr(AT, X), y = (mask & 2) ? lit(T, Y[0]) : arr(T, Y), z = (mask & 4) ? lit(T, Z[0]) : arr(T, Z);
                    inputs.push_back(x); inputs.push_back(y); inputs.push_back(z);
                    std::string md; md += (mask & 1) ? 'L' : 'V'; md += (mask & 2) ? 'L' : 'V'; md += (mask & 4) ? 'L' : 'V';
                    add(o, rt, mkargs(X, Y, Z), { x, y, z }, md);
                }
            }
        }
        // (4) constant propagation disabled: literals end up in the kernel
        {
            uint32_t fs = jit_flags(); jit_set_flag(JitFlag::ConstantPropagation, 0);
            for (int q = 0; q < 3; ++q) {
                size_t z = g.below((uint32_t) fa.size());
                std::vector<Bytes> x = { fa[z] }, y, w;
                uint32_t u = lit(AT, x[0]), v = 0, t = 0; inputs.push_back(u);
                if (o.n > 1) { y = { b[z % b.size()] }; 
                    auto ok = domain(o, x, y); if (o.n == 2 && !ok[0]) continue;
                    v = lit(T, y[0]); inputs.push_back(v); }
                if (o.n > 2) { w = { c[z % c.size()] }; t = lit(T, w[0]); inputs.push_back(t); }
                add(o, rt, mkargs(x, y, w), { u, v, t }, "N");
            }
            jit_set_flags(fs);
        }
        flush();
    }

    // value & mask  (type T combined with a boolean)
    if (!bo && do_ops) {
        for (const Op &o : ops) {
            std::string nm = o.name;
            if (nm != "and") continue;
            std::vector<Bytes> m = MA;
            uint32_t a = arr(T, PA), mm = arr(VarType::Bool, m); inputs.push_back(a); inputs.push_back(mm);
            uint32_t d[2] = { a, mm };
            pend.push_back({ nm + "_mask", T, { { T, PA }, { VarType::Bool, m } }, apply(o.op, d), "VV" });
            for (auto &l : E) for (auto &bl : MB) {
                uint32_t x = lit(T, l), y = lit(VarType::Bool, bl); inputs.push_back(x); inputs.push_back(y);
                uint32_t d2[2] = { x, mm }, d3[2] = { a, y }, d4[2] = { x, y };
                pend.push_back({ nm + "_mask", T, { { T, { l } }, { VarType::Bool, m } }, apply(o.op, d2), "LV" });
                pend.push_back({ nm + "_mask", T, { { T, PA }, { VarType::Bool, { bl } } }, apply(o.op, d3), "VL" });
                pend.push_back({ nm + "_mask", T, { { T, { l } }, { VarType::Bool, { bl } } }, apply(o.op, d4), "LL" });
            }
            flush();
        }
    }

    // casts
    for (VarType t2 : all) {
        if (!do_casts) break;
        std::vector<Bytes> src;
        for (size_t i = 0; i < PA.size(); ++i) src.push_back(PA[i]);
        auto inrange = [&](const Bytes &x) {
            if (!fl || is_float(t2) || is_bool(t2)) return true;
            double d; if (T == VarType::Float32) { float f; memcpy(&f, x.data(), 4); d = f; } else if (T == VarType::Float64) memcpy(&d, x.data(), 8); else d = h2d((uint16_t) rd(x));
            if (!(d == d)) return false;
            d = std::trunc(d);
            size_t bits = jit_type_size(t2) * 8; double lo = is_uint(t2) ? 0 : -std::ldexp(1.0, bits - 1), hi = std::ldexp(1.0, is_uint(t2) ? bits : bits - 1);
            return d >= lo && d < hi;
        };
        std::vector<Bytes> v; for (auto &x : src) if (inrange(x)) v.push_back(x);
        if (v.empty()) continue;
        uint32_t a = arr(T, v); inputs.push_back(a);
        std::string nm = std::string("cast");
        pend.push_back({ nm, t2, { { T, v } }, jit_var_cast(a, t2, 0), "V" });
        uint32_t k = jit_var_reverse(a); inputs.push_back(k); std::vector<Bytes> rv(v.rbegin(), v.rend());
        pend.push_back({ nm, t2, { { T, rv } }, jit_var_cast(k, t2, 0), "K" });
        for (size_t q = 0; q < E.size(); ++q) if (inrange(E[q])) {
            uint32_t x = lit(T, E[q]); inputs.push_back(x);
            pend.push_back({ nm, t2, { { T, { E[q] } } }, jit_var_cast(x, t2, 0), "L" });
        }
        if (!bo && !is_bool(t2) && jit_type_size(t2) == S) {
            uint32_t a2 = arr(T, PA); inputs.push_back(a2);
            pend.push_back({ "bitcast", t2, { { T, PA } }, jit_var_cast(a2, t2, 1), "V" });
            for (size_t q = 0; q < E.size(); ++q) {
                uint32_t x = lit(T, E[q]); inputs.push_back(x);
                pend.push_back({ "bitcast", t2, { { T, { E[q] } } }, jit_var_cast(x, t2, 1), "L" });
            }
        }
        // rounding fused into the conversion
        if (fl && !is_float(t2) && !is_bool(t2)) {
            for (const Op &o : ops) {
                std::string n = o.name;
                if (n != "floor" && n != "ceil" && n != "round" && n != "trunc") continue;
                std::vector<Bytes> v2; for (auto &x : v) { 
                    double d; if (T == VarType::Float32) { float f; memcpy(&f, x.data(), 4); d = f; } else if (T == VarType::Float64) memcpy(&d, x.data(), 8); else d = h2d((uint16_t) rd(x));
                    size_t bits = jit_type_size(t2) * 8; double lo = is_uint(t2) ? 0 : -std::ldexp(1.0, bits - 1), hi = std::ldexp(1.0, is_uint(t2) ? bits : bits - 1);
                    double r = n == "floor" ? std::floor(d) : n == "ceil" ? std::ceil(d) : n == "round" ? std::rint(d) : std::trunc(d);
                    if (r >= lo && r < hi) v2.push_back(x); }
                if (v2.empty()) continue;
                uint32_t a3 = arr(T, v2); inputs.push_back(a3);
                uint32_t d[1] = { a3 }; uint32_t f = apply(o.op, d); inputs.push_back(f);
                pend.push_back({ "cast_" + n, t2, { { T, v2 } }, jit_var_cast(f, t2, 0), "F" });
            }
        }
        flush();
    }

    }

    size_t n = 0;
    for (auto &kv : recs) {
        Rec &r = kv.second; J j;
        if (r.op == "mod") { // witness for the division relation: |a| / |b|
            size_t sz = r.a[0].second.size(); uint64_t x = rd(r.a[0].second), y = rd(r.a[1].second), h = 0; bool sg = r.t[0] == 'i';
            auto ext = [&](uint64_t v) { int sh = 64 - 8 * (int) sz; int64_t q = (int64_t) (v << sh) >> sh; return q < 0 ? 0 - (uint64_t) q : (uint64_t) q; };
            if (sg) { x = ext(x); y = ext(y); }
            if (y) h = x / y;
            j.bytes("h", &h, sz);
        } else j.raw("h", "[]");
        j.str("e", "op").str("op", r.op).str("t", r.t).str("rt", r.rt);
        std::string a = "[", at = "[", rr = "[", mm = "[";
        for (size_t i = 0; i < r.a.size(); ++i) { if (i) { a += ','; at += ','; } a += jbytes(r.a[i].second.data(), r.a[i].second.size()); at += std::string("\"") + tname(r.a[i].first) + "\""; }
        size_t i = 0;
        for (auto &x : r.r) { if (i++) { rr += ','; mm += ','; } rr += jbytes(x.first.data(), x.first.size()); std::set<std::string> ms; for (auto &y : x.second) { std::string z = "["; for (size_t q = 0; y != "N" && q < y.size(); ++q) { if (q) z += ','; z += y[q] == 'L' ? "\"L\"" : "\"V\""; } ms.insert(z + "]"); }
            mm += '['; size_t q = 0; for (auto &y : ms) { if (q++) mm += ','; mm += y; } mm += ']'; }
        j.raw("a", a + "]").raw("at", at + "]").raw("r", rr + "]").raw("m", mm + "]").b("fm", fastmath); j.emit(); ++n;
    }
    fclose(out_f); out_f = nullptr;
    jit_shutdown(0);
    return 0;
}
