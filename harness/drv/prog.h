// Random structured programs (loops, conditionals, indirect calls, memory
// operations, local arrays) that are executed through the public API in many
// different ways.  spec/Prog.tla holds the reference semantics.
#pragma once
#include "drv.h"
#include <memory>
#include <nanothread/nanothread.h>

typedef long long ll;
typedef VarType VT;

static const char *tn(VT t) {
    switch (t) {
        case VT::Bool: return "b1"; case VT::Int8: return "i8"; case VT::UInt8: return "u8"; case VT::Int16: return "i16";
        case VT::UInt16: return "u16"; case VT::Int32: return "i32"; case VT::UInt32: return "u32"; case VT::Int64: return "i64";
        case VT::UInt64: return "u64"; case VT::Float16: return "f16"; case VT::Float32: return "f32"; case VT::Float64: return "f64";
        default: return "??";
    }
}
static bool isf(VT t) { return t == VT::Float16 || t == VT::Float32 || t == VT::Float64; }
static bool is8(VT t) { return t == VT::Int8 || t == VT::UInt8; }
static bool isint(VT t) { return !isf(t) && t != VT::Bool; }
static bool isu(VT t) { return t == VT::UInt8 || t == VT::UInt16 || t == VT::UInt32 || t == VT::UInt64; }
static bool is16(VT t) { return t == VT::Int16 || t == VT::UInt16; }
static void enc(VT t, ll v, void *p) {
    switch (t) {
        case VT::Bool: case VT::Int8: case VT::UInt8: { int8_t x = (int8_t) v; memcpy(p, &x, 1); break; }
        case VT::Int16: case VT::UInt16: { int16_t x = (int16_t) v; memcpy(p, &x, 2); break; }
        case VT::Int32: case VT::UInt32: { int32_t x = (int32_t) v; memcpy(p, &x, 4); break; }
        case VT::Int64: case VT::UInt64: memcpy(p, &v, 8); break;
        case VT::Float16: { _Float16 x = (_Float16) v; memcpy(p, &x, 2); break; }
        case VT::Float32: { float x = (float) v; memcpy(p, &x, 4); break; }
        case VT::Float64: { double x = (double) v; memcpy(p, &x, 8); break; }
        default: abort();
    }
}
static ll clampll(ll v) { return v > 1999999999ll || v < -1999999999ll ? 1999999999ll : v; }
static ll fl2ll(double d) { if (!(d == d) || d > 1.9e9 || d < -1.9e9 || d != std::floor(d)) return 1999999999; return (ll) d; }
static ll dec(VT t, const void *p) {
    switch (t) {
        case VT::Bool: case VT::UInt8: return *(const uint8_t *) p; case VT::Int8: return *(const int8_t *) p;
        case VT::Int16: { int16_t x; memcpy(&x, p, 2); return x; } case VT::UInt16: { uint16_t x; memcpy(&x, p, 2); return x; }
        case VT::Int32: { int32_t x; memcpy(&x, p, 4); return x; } case VT::UInt32: { uint32_t x; memcpy(&x, p, 4); return clampll(x); }
        case VT::Int64: { int64_t x; memcpy(&x, p, 8); return clampll(x); } case VT::UInt64: { uint64_t x; memcpy(&x, p, 8); return x > 1999999999ull ? 1999999999 : (ll) x; }
        case VT::Float16: { _Float16 x; memcpy(&x, p, 2); return fl2ll((double) x); }
        case VT::Float32: { float x; memcpy(&x, p, 4); return fl2ll(x); }
        case VT::Float64: { double x; memcpy(&x, p, 8); return fl2ll(x); }
        default: abort();
    }
}

// ------------------------------------------------------------------ handles
struct V {
    uint32_t i = 0;
    V() {}
    static V steal(uint32_t i) { V v; v.i = i; return v; }
    static V borrow(uint32_t i) { V v; v.i = i; jit_var_inc_ref(i); return v; }
    V(const V &o) : i(o.i) { if (i) jit_var_inc_ref(i); }
    V(V &&o) noexcept : i(o.i) { o.i = 0; }
    V &operator=(const V &o) { if (o.i) jit_var_inc_ref(o.i); if (i) jit_var_dec_ref(i); i = o.i; return *this; }
    V &operator=(V &&o) noexcept { std::swap(i, o.i); return *this; }
    ~V() { if (i) jit_var_dec_ref(i); }
    uint32_t release() { uint32_t r = i; i = 0; return r; }
};

static V vlit(VT t, ll x, size_t n = 1) {
    if (t == VT::UInt32 && n == 1) return V::steal(jit_var_u32(L, (uint32_t) x));
    uint8_t b[8] = {}; enc(t, x, b); return V::steal(jit_var_literal(L, t, b, n, 0));
}
static V vmem(VT t, const std::vector<ll> &v) {
    size_t sz = jit_type_size(t); std::vector<uint8_t> b(v.size() * sz);
    for (size_t i = 0; i < v.size(); ++i) enc(t, v[i], b.data() + i * sz);
    return V::steal(jit_var_mem_copy(L, t, b.data(), v.size(), 1));
}
static std::vector<ll> vread(const V &v) {
    void *p = nullptr; V r = V::steal(jit_var_data(v.i, &p)); jit_sync_thread();
    VT t = jit_var_type(v.i); size_t n = jit_var_size(v.i), sz = jit_type_size(t); std::vector<ll> o(n);
    for (size_t i = 0; i < n; ++i) o[i] = dec(t, (uint8_t *) p + i * sz);
    return o;
}

// ------------------------------------------------------------------ syntax
struct Opd { int k = 1; ll v = 0; };              // 0: slot, 1: literal, 2: opaque scalar, 3: opaque buffer element (own copy)
struct Stmt;
typedef std::vector<std::shared_ptr<Stmt>> Block;
struct Stmt {
    std::string k, op;
    int d = -1, b = -1, f = -1, x = -1, c = 0;    // destination, buffer, function, array, constant
    Opd a[3]; int na = 0;                         // operands
    Opd i, m;
    std::vector<int> ds;                          // several destinations / outputs
    std::vector<int> as;                          // arguments (slots)
    std::vector<int> ax;                          // array outputs
    std::vector<ll> vals;
    Block p, t, e;                                // condition, body/true, false
};
struct Inst { Block b; std::vector<Opd> r; };
struct Fn { std::vector<VT> types; int nin = 0; std::vector<VT> rt; std::vector<Inst> inst; std::vector<int> ids; std::vector<Opd> init; std::vector<int> alen; std::vector<VT> atype; };
struct Buf { VT t; std::vector<ll> v; int role; std::string op; };  // role 0: read, 1: scatter-reduce
struct Arr { VT t; int len; };
struct Program {
    size_t n = 1;
    std::vector<VT> types;
    std::vector<std::vector<ll>> init;            // one or n values
    std::vector<Buf> bufs;
    std::vector<Fn> fns;
    std::vector<Arr> arrs;
    Block code;
};

static std::string jo(const Opd &o) { return "[" + std::to_string(o.k == 0 ? 0 : 1) + "," + std::to_string(o.v) + "]"; }
template <typename T> static std::string jl(const std::vector<T> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string((ll) v[i]); } return s + "]"; }
static std::string jb(const Block &b);
static std::string js(const Stmt &s) {
    J j; j.str("k", s.k);
    if (s.k == "op") { std::string a = "["; for (int i = 0; i < s.na; ++i) { if (i) a += ","; a += jo(s.a[i]); } j.str("op", s.op).i("d", s.d).raw("a", a + "]"); }
    else if (s.k == "gat") j.i("d", s.d).i("b", s.b).raw("i", jo(s.i)).raw("m", jo(s.m));
    else if (s.k == "gpk") j.arr("d", s.ds).i("b", s.b).raw("i", jo(s.i)).raw("m", jo(s.m));
    else if (s.k == "sca") j.i("b", s.b).raw("v", jo(s.a[0])).raw("i", jo(s.i)).raw("m", jo(s.m)).i("c", s.c);
    else if (s.k == "if") j.raw("c", jo(s.a[0])).raw("t", jb(s.t)).raw("f", jb(s.e)).arr("o", s.ds).arr("x", s.ax);
    else if (s.k == "wh") j.raw("p", jb(s.p)).raw("c", jo(s.a[0])).raw("b", jb(s.t)).arr("o", s.ds).arr("x", s.ax);
    else if (s.k == "call") j.i("f", s.f).raw("self", jo(s.i)).raw("m", jo(s.m)).arr("a", s.as).arr("o", s.ds);
    else if (s.k == "get") j.i("d", s.d).raw("i", jo(s.i)).raw("m", jo(s.m)).arr("v", s.vals);
    else if (s.k == "ard") j.i("d", s.d).i("x", s.x).raw("i", jo(s.i));
    else if (s.k == "awr") j.i("x", s.x).raw("v", jo(s.a[0])).raw("i", jo(s.i)).raw("m", jo(s.m));
    else if (s.k == "ain") j.i("x", s.x).raw("v", jo(s.a[0]));
    else if (s.k == "acp") j.i("x", s.x).i("y", s.b);
    else if (s.k == "ai2") j.i("x", s.x).i("y", s.b).raw("v", jo(s.a[0])).raw("w", jo(s.a[1]));
    return "{" + j.s + "}";
}
static std::string jb(const Block &b) { std::string s = "["; for (size_t i = 0; i < b.size(); ++i) { if (i) s += ","; s += js(*b[i]); } return s + "]"; }
static std::string emit_prog(const Program &P, int id) {
    J j; j.str("e", "prog").i("id", id).i("n", (ll) P.n);
    std::string s = "["; for (size_t i = 0; i < P.init.size(); ++i) { if (i) s += ","; s += jl(P.init[i]); } j.raw("s", s + "]");
    s = "["; for (size_t i = 0; i < P.bufs.size(); ++i) { if (i) s += ","; s += jl(P.bufs[i].v); } j.raw("b", s + "]");
    s = "["; for (size_t i = 0; i < P.bufs.size(); ++i) { if (i) s += ","; s += "\"" + P.bufs[i].op + "\""; } j.raw("bo", s + "]");
    s = "["; for (size_t i = 0; i < P.arrs.size(); ++i) { if (i) s += ","; s += std::to_string(P.arrs[i].len); } j.raw("x", s + "]");
    s = "[";
    for (size_t i = 0; i < P.fns.size(); ++i) {
        const Fn &f = P.fns[i]; J q; q.i("k", (ll) f.ids.size());
        std::string t = "["; for (size_t k = 0; k < f.init.size(); ++k) { if (k) t += ","; t += std::to_string(f.init[k].v); } q.raw("l", t + "]");
        q.arr("x", f.alen);
        t = "["; for (size_t k = 0; k < f.inst.size(); ++k) {
            if (k) t += ","; std::string r = "["; for (size_t w = 0; w < f.inst[k].r.size(); ++w) { if (w) r += ","; r += jo(f.inst[k].r[w]); }
            t += "{\"b\":" + jb(f.inst[k].b) + ",\"r\":" + r + "]}";
        }
        q.raw("inst", t + "]");
        if (i) s += ","; s += "{" + q.s + "}";
    }
    j.raw("fn", s + "]").raw("code", jb(P.code));
    return "{" + j.s + "}";
}

// ------------------------------------------------------------------ generator
struct Weights { bool acp = true; int loop = 3, cond = 3, call = 2, mem = 3, arr = 1, get = 1; int top = 8, depth = 3; };
struct Gen {
    Rng &g; Program &P; Weights W;
    struct Scope { std::vector<VT> types; std::vector<Arr> arrs; std::set<int> frozen; bool infn = false, noaw = false; int fn = -1; };
    Gen(Rng &g, Program &P, Weights W) : g(g), P(P), W(W) {}

    int slot_of(const Scope &S, VT t, bool dest = false) {
        std::vector<int> c; for (size_t i = 0; i < S.types.size(); ++i) if (S.types[i] == t && !(dest && (i == 0 || S.frozen.count((int) i)))) c.push_back((int) i);
        return c.empty() ? -1 : g.pick(c);
    }
    int any_dest(const Scope &S) { for (int r = 0; r < 20; ++r) { int i = 1 + g.below((uint32_t) S.types.size() - 1); if (!S.frozen.count(i)) return i; } return -1; }
    Opd opd(const Scope &S, VT t) {
        int s = slot_of(S, t); Opd o;
        if (s >= 0 && g.chance(4, 5)) { o.k = 0; o.v = s; return o; }
        o.k = g.chance(1, 2) ? 1 : 2; o.v = t == VT::Bool ? g.below(2) : is8(t) ? g.below(50) : g.chance(1, 2) ? g.below(6) : g.below(300); return o;
    }
    Opd mask(const Scope &S) { Opd o; o.k = 1; o.v = 1; if (g.chance(1, 2)) return opd(S, VT::Bool); return o; }
    std::shared_ptr<Stmt> mk(const char *k) { auto s = std::make_shared<Stmt>(); s->k = k; return s; }

    std::shared_ptr<Stmt> op_to(const Scope &S, int d) {
        auto s = mk("op"); s->d = d; VT t = S.types[d];
        if (t == VT::Bool) {
            uint32_t r = g.below(8);
            if (r < 4) {
                VT u = S.types[g.below((uint32_t) S.types.size())]; if (u == VT::Bool) u = VT::UInt32;
                static const char *c[] = { "lt", "le", "gt", "ge", "eq", "neq" };
                s->op = c[g.below(6)]; s->na = 2; s->a[0] = opd(S, u); s->a[1] = opd(S, u);
                if (s->a[0].k != 0 && s->a[1].k != 0) { s->a[0].k = 0; s->a[0].v = 0; s->a[1].v %= 40; s->b = (int) VT::UInt32; }
                else s->b = (int) u;
            } else if (r < 7) { static const char *c[] = { "and", "or", "xor" }; s->op = c[g.below(3)]; s->na = 2; s->a[0] = opd(S, t); s->a[1] = opd(S, t); }
            else if (g.chance(1, 2)) { s->op = "test"; s->na = 1; s->a[0].k = 0; s->a[0].v = g.below((uint32_t) S.types.size()); }
            else { s->op = "lnot"; s->na = 1; s->a[0] = opd(S, t); }
            return s;
        }
        while (true) {
            uint32_t r = g.below(10);
            if (r == 0) {
                s->op = "cast"; s->na = 1; s->a[0].k = 0; s->a[0].v = g.below((uint32_t) S.types.size());
                if (is8(t) && S.types[s->a[0].v] != VT::Bool) continue;
                return s;
            }
            if (r == 1) { s->op = "select"; s->na = 3; s->a[0] = opd(S, VT::Bool); s->a[1] = opd(S, t); s->a[2] = opd(S, t); return s; }
            if (r == 2 && !is16(t) && !is8(t)) { s->op = "fma"; s->na = 3; for (int i = 0; i < 3; ++i) s->a[i] = opd(S, t); return s; }
            if (r == 3 && !is16(t) && !is8(t)) { s->op = "mul"; s->na = 2; for (int i = 0; i < 2; ++i) s->a[i] = opd(S, t); return s; }
            if (r == 4 && isint(t)) { s->op = "mod"; s->na = 2; s->a[0] = opd(S, t); s->a[1].k = g.chance(1, 2) ? 1 : 2; s->a[1].v = 1 + g.below(20); return s; }
            if (r == 5 && isint(t)) { s->op = "iand"; s->na = 2; s->a[0] = opd(S, t); s->a[1] = opd(S, t); return s; }
            static const char *c[] = { "add", "add", "sub", "min", "max" };
            s->op = c[g.below(5)]; s->na = 2; s->a[0] = opd(S, t); s->a[1] = opd(S, t);
            if (is8(t) && (s->op == "add")) continue;
            return s;
        }
    }

    void assigned(const Block &b, std::set<int> &o, std::set<int> &ax) {
        for (auto &s : b) {
            if (s->d >= 0) o.insert(s->d);
            for (int k : s->ds) o.insert(k);
            if (s->k == "awr" || s->k == "ain" || s->k == "acp" || s->k == "ai2") ax.insert(s->x);
            if (s->k == "ai2") ax.insert(s->b);
            for (int k : s->ax) ax.insert(k);
        }
    }
    // Choose the outputs of a control flow statement
    void outputs(Stmt &s, const Scope &S, const std::set<int> &o, const std::set<int> &ax, const std::set<int> &must, const std::set<int> &never) {
        std::set<int> r = must;
        for (int k : o) if (!never.count(k) && g.chance(5, 6)) r.insert(k);
        for (size_t k = 1; k < S.types.size(); ++k) if (!never.count((int) k) && !S.frozen.count((int) k) && g.chance(1, 10)) r.insert((int) k);
        if (r.empty()) for (int q = 0; q < 20; ++q) { int k = any_dest(S); if (k > 0 && !never.count(k)) { r.insert(k); break; } }
        s.ds.assign(r.begin(), r.end());
        for (size_t k = s.ds.size(); k > 1; --k) std::swap(s.ds[k - 1], s.ds[g.below((uint32_t) k)]);
        for (int k : ax) s.ax.push_back(k);
    }

    bool aliased = false; // see kf_array_loop()
    void gen(const Scope &S, Block &out, int count, int depth, int budget) {
        for (int c = 0; c < count; ++c) {
            uint32_t tot = 10 + W.mem + (depth > 0 ? W.loop + W.cond + W.call : 0) + W.arr * (S.arrs.empty() ? 0 : 3) + W.get;
            uint32_t r = g.below(tot);
            if (r < 10) { int d = any_dest(S); if (d > 0) out.push_back(op_to(S, d)); continue; }
            r -= 10;
            if (r < (uint32_t) W.mem) {
                int b = g.below((uint32_t) P.bufs.size()); const Buf &B = P.bufs[b];
                int iu = slot_of(S, VT::UInt32);
                Opd ix; ix.k = 0; ix.v = iu; if (iu < 0 || g.chance(1, 8)) { ix.k = 1 + g.below(2); ix.v = g.below(100); }
                if (B.role == 0) {
                    int n = g.chance(1, 4) ? (g.chance(1, 2) ? 2 : 4) : 1;
                    if (n > 1 && B.v.size() % n == 0 && B.v.size() >= 2 * (size_t) n) {
                        std::vector<int> c2; for (size_t k = 1; k < S.types.size(); ++k) if (S.types[k] == B.t && !S.frozen.count((int) k)) c2.push_back((int) k);
                        if (c2.empty()) continue;
                        auto s = mk("gpk"); s->b = b; s->i = ix; s->m = mask(S);
                        for (int k = 0; k < n; ++k) s->ds.push_back(g.pick(c2));
                        out.push_back(s); continue;
                    }
                    int d = slot_of(S, B.t, true); if (d < 0) continue;
                    auto s = mk("gat"); s->d = d; s->b = b; s->i = ix; s->m = mask(S); out.push_back(s);
                } else {
                    auto s = mk("sca"); s->b = b; s->i = ix; s->m = mask(S); s->a[0] = opd(S, B.t); s->c = g.chance(2, 3); s->vals.push_back(g.below(3)); out.push_back(s);
                }
                continue;
            }
            r -= W.mem;
            if (depth > 0) {
                if (r < (uint32_t) W.loop) {
                    if (budget < 3) continue;
                    // bounded loop: counter slot k, bound slot/const
                    int k = slot_of(S, g.chance(1, 2) ? VT::UInt32 : g.chance(1, 2) ? VT::Int32 : VT::Float32, true); if (k < 0) continue;
                    int cs = slot_of(S, VT::Bool, true); if (cs < 0) continue;
                    int trip = 1 + g.below(std::min(budget, 6));
                    auto init = mk("op"); init->op = "min"; init->d = k; init->na = 2; init->a[0] = g.chance(1, 2) ? Opd{ 0, k } : opd(S, S.types[k]); init->a[1].k = 1; init->a[1].v = g.chance(1, 2) ? 0 : g.below(trip + 1);
                    out.push_back(init);
                    Scope S2 = S; S2.noaw |= aliased; S2.frozen.insert(k); S2.frozen.insert(cs);
                    auto s = mk("wh");
                    // condition
                    auto c1 = mk("op"); c1->op = "lt"; c1->d = cs; c1->na = 2; c1->a[0] = Opd{ 0, k }; c1->a[1].k = g.chance(2, 3) ? 1 : 2; c1->a[1].v = trip; c1->b = (int) S.types[k];
                    s->p.push_back(c1);
                    if (g.chance(1, 3)) { auto c2 = mk("op"); c2->op = "and"; c2->d = cs; c2->na = 2; c2->a[0] = Opd{ 0, cs }; c2->a[1] = opd(S2, VT::Bool); s->p.push_back(c2); }
                    s->a[0] = Opd{ 0, cs };
                    gen(S2, s->t, 1 + g.below(4), depth - 1, budget / trip);
                    auto inc = mk("op"); inc->op = "inc"; inc->d = k; inc->na = 1; inc->a[0] = Opd{ 0, k }; 
                    if (g.chance(1, 3)) s->t.insert(s->t.begin(), inc); else s->t.push_back(inc);
                    std::set<int> o, ax; assigned(s->t, o, ax);
                    outputs(*s, S2, o, ax, { k }, { cs });
                    out.push_back(s); continue;
                }
                r -= W.loop;
                if (r < (uint32_t) W.cond) {
                    auto s = mk("if"); s->a[0] = opd(S, VT::Bool);
                    if (g.chance(1, 2)) { int cs = slot_of(S, VT::Bool, true); if (cs > 0) { out.push_back(op_to(S, cs)); s->a[0] = Opd{ 0, cs }; } }
                    Scope S2 = S; S2.noaw = true; // see kf_array_cond()
                    gen(S2, s->t, g.below(4), depth - 1, budget); gen(S2, s->e, g.chance(1, 4) ? 0 : g.below(4), depth - 1, budget);
                    std::set<int> o, ax; assigned(s->t, o, ax); assigned(s->e, o, ax);
                    outputs(*s, S, o, ax, {}, {}); if (s->ds.empty()) continue;
                    out.push_back(s); continue;
                }
                r -= W.cond;
                if (r < (uint32_t) W.call) {
                    std::vector<int> fs; for (int f = S.fn + 1; f < (int) P.fns.size(); ++f) fs.push_back(f);
                    if (fs.empty()) continue;
                    auto s = mk("call"); s->f = g.pick(fs); const Fn &f = P.fns[s->f];
                    s->as.push_back(0); bool ok = true;
                    for (int k = 1; k < f.nin; ++k) { int a = slot_of(S, f.types[k]); if (a < 0) ok = false; s->as.push_back(a); }
                    std::set<int> used;
                    for (VT t : f.rt) { int d = slot_of(S, t, true); for (int q = 0; q < 10 && used.count(d); ++q) d = slot_of(S, t, true); if (d < 0 || used.count(d)) ok = false; used.insert(d); s->ds.push_back(d); }
                    if (!ok) continue;
                    int iu = slot_of(S, VT::UInt32); s->i.k = 0; s->i.v = iu < 0 ? 0 : iu; s->m = mask(S);
                    if (g.chance(1, 10)) { s->i.k = 1; s->i.v = g.below(8); }
                    out.push_back(s); continue;
                }
                r -= W.call;
            }
            if (r < (uint32_t) W.get) {
                int d = any_dest(S); if (d < 0) continue;
                auto s = mk("get"); s->d = d; int n = 1 + g.below(5); s->i.k = 0; s->i.v = slot_of(S, VT::UInt32); s->m = mask(S);
                for (int k = 0; k < n; ++k) s->vals.push_back(g.chance(1, 6) ? -1ll : S.types[d] == VT::Bool ? (ll) g.below(2) : is8(S.types[d]) ? (ll) g.below(50) : (ll) g.below(500));
                s->c = g.next() & 0xffffff; out.push_back(s); continue;
            }
            if (S.arrs.empty()) continue;
            int x = g.below((uint32_t) S.arrs.size()); VT t = S.arrs[x].t;
            Opd ix; ix.k = 0; ix.v = slot_of(S, VT::UInt32); if (ix.v < 0 || g.chance(1, 3)) { ix.k = 1 + g.below(2); ix.v = g.below(100); }
            uint32_t w = g.below(6);
            if (w >= 2 && S.noaw) continue;
            if (w == 5) { // x := y (another version of the same array continues to exist)
                if (!W.acp || (depth < W.depth && !getenv("ACP"))) continue;
                std::vector<int> ys; for (size_t k = 0; k < S.arrs.size(); ++k) if ((int) k != x && S.arrs[k].t == t && S.arrs[k].len == S.arrs[x].len) ys.push_back((int) k);
                if (ys.empty()) continue;
                if (g.chance(1, 4)) { auto s = mk("ai2"); s->x = x; s->b = g.pick(ys); s->a[0] = opd(S, t); s->a[1] = opd(S, t); out.push_back(s); continue; }
                aliased = true;
                auto awr = [&](int q) { auto s = mk("awr"); s->x = q; s->i = ix; s->a[0] = opd(S, t); s->m = mask(S); out.push_back(s); };
                auto ard = [&](int q) { int d = slot_of(S, t, true); if (d < 0) return; auto s = mk("ard"); s->d = d; s->x = q; s->i = ix; out.push_back(s); };
                auto s = mk("acp"); s->x = x; s->b = g.pick(ys); bool burst = g.chance(1, 2);
                if (burst && g.chance(1, 2)) awr(s->b);
                out.push_back(s);
                if (burst) { int a = x, b = s->b; if (g.chance(1, 2)) std::swap(a, b); if (g.chance(1, 3)) ard(b); awr(a); if (g.chance(1, 3)) awr(a); ard(b); if (g.chance(1, 2)) ard(a); if (g.chance(1, 3)) awr(b); }
                continue;
            }
            if (w < 2) { int d = slot_of(S, t, true); if (d < 0) continue; auto s = mk("ard"); s->d = d; s->x = x; s->i = ix; out.push_back(s); }
            else if (w < 4 || (depth < W.depth && !getenv("ACP"))) { auto s = mk("awr"); s->x = x; s->i = ix; s->a[0] = opd(S, t); s->m = mask(S); out.push_back(s); }
            else { auto s = mk("ain"); s->x = x; s->a[0] = opd(S, t); out.push_back(s); }
        }
    }

    // Writing a variable array within a symbolic conditional, after it was
    // written before: known finding, hence not part of the random programs
    void kf_array_cond() {
        P.n = 8; P.types = { VT::UInt32, VT::Bool, VT::UInt32 }; P.init = { { 0, 1, 2, 3, 4, 5, 6, 7 }, { 1, 1, 1, 0, 0, 0, 1, 0 }, { 7 } };
        P.arrs.push_back({ VT::UInt32, 4 });
        Opd one; one.v = 1; Opd nine; nine.v = 9; Opd s2; s2.k = 0; s2.v = 2; Opd s1; s1.k = 0; s1.v = 1;
        auto a = mk("ain"); a->x = 0; a->a[0] = s2; P.code.push_back(a);
        auto w = mk("awr"); w->x = 0; w->i = one; w->a[0] = one; w->m = one; P.code.push_back(w);
        auto c = mk("if"); c->a[0] = s1; auto w2 = mk("awr"); w2->x = 0; w2->i = one; w2->a[0] = nine; w2->m = one; c->t.push_back(w2); c->ds = { 2 }; c->ax = { 0 }; P.code.push_back(c);
        auto r = mk("ard"); r->d = 2; r->x = 0; r->i = one; P.code.push_back(r);
    }

    // Modifying a variable array within a symbolic loop while an older version
    // of it is still in use: known finding
    void kf_array_loop() {
        P.n = 4; P.types = { VT::UInt32, VT::Bool, VT::UInt32, VT::UInt32 }; P.init = { { 0, 1, 2, 3 }, { 1 }, { 7 }, { 0 } };
        P.arrs.push_back({ VT::UInt32, 2 }); P.arrs.push_back({ VT::UInt32, 2 });
        Opd zero; zero.v = 0; Opd one; one.v = 1; Opd nine; nine.v = 9; Opd s2; s2.k = 0; s2.v = 2; Opd s1; s1.k = 0; s1.v = 1; Opd s3; s3.k = 0; s3.v = 3; Opd two; two.v = 2;
        for (int x : { 0, 1 }) { auto a = mk("ain"); a->x = x; a->a[0] = s2; P.code.push_back(a); }
        auto w0 = mk("awr"); w0->x = 1; w0->i = zero; w0->a[0] = one; w0->m = one; P.code.push_back(w0);
        auto c = mk("acp"); c->x = 0; c->b = 1; P.code.push_back(c);
        auto w = mk("wh"); w->a[0] = s1; w->ax = { 0 }; w->ds = { 3, 1 };
        auto lt = mk("op"); lt->op = "lt"; lt->d = 1; lt->na = 2; lt->a[0] = s3; lt->a[1] = two; lt->b = (int) VT::UInt32; w->p.push_back(lt);
        auto wr = mk("awr"); wr->x = 0; wr->i = one; wr->a[0] = nine; wr->m = one; w->t.push_back(wr);
        auto in = mk("op"); in->op = "inc"; in->d = 3; in->na = 1; in->a[0] = s3; w->t.push_back(in); P.code.push_back(w);
        auto q = mk("ard"); q->d = 3; q->x = 0; q->i = one; P.code.push_back(q);
        auto r = mk("ard"); r->d = 2; r->x = 1; r->i = one; P.code.push_back(r);
    }

    std::vector<VT> pick_types(int n) {
        static const std::vector<VT> T = { VT::Bool, VT::Bool, VT::UInt32, VT::UInt32, VT::Int32, VT::Float32, VT::Float32, VT::Float64, VT::UInt64, VT::Int64, VT::Float16, VT::UInt16, VT::Int16, VT::UInt8, VT::Int8 };
        std::vector<VT> r = { VT::UInt32, VT::Bool, VT::UInt32 };
        while ((int) r.size() < n) r.push_back(g.pick(T));
        return r;
    }
    Opd randc(VT t) { Opd o; o.k = 1 + g.below(2); o.v = t == VT::Bool ? g.below(2) : is8(t) ? g.below(50) : g.below(400); return o; }
    void vary(Block &b) { // change the opaque constants of a template body
        for (auto &s : b) {
            auto n = std::make_shared<Stmt>(*s); s = n;
            for (int i = 0; i < 3; ++i) if (n->a[i].k == 2 && n->op != "and" && n->op != "or" && n->op != "xor" && n->op != "select" && n->op != "lt" && n->op != "mod" && n->a[i].v > 1) n->a[i].v = n->a[i].v / 2 + g.below((uint32_t) n->a[i].v);
            for (int i = 0; i < 3; ++i) if (n->a[i].v > 300) n->a[i].v = 300;
            vary(n->p); vary(n->t); vary(n->e);
        }
    }
    std::vector<ll> rnd_vals(VT t, size_t n) {
        std::vector<ll> v(n); uint32_t m = t == VT::Bool ? 2 : is8(t) ? 50 : g.chance(1, 2) ? 8 : 500; for (auto &x : v) x = g.below(m); return v;
    }
    void make(bool big) {
        static const std::vector<size_t> N = { 1, 2, 3, 5, 9, 16, 17, 20, 31, 33, 40, 75, 130 };
        P.n = g.pick(N);
        static const std::vector<VT> RT = { VT::UInt32, VT::Float32, VT::Int32, VT::Float64, VT::UInt64, VT::Int64 };
        static const std::vector<VT> GT = { VT::UInt32, VT::Float32, VT::Int32, VT::Float64, VT::Bool, VT::Float16, VT::UInt16, VT::UInt64, VT::Int8 };
        int nb = 2 + g.below(3);
        for (int k = 0; k < nb; ++k) {
            Buf b; b.role = k == 0 ? 0 : k == 1 ? 1 : g.below(2);
            b.t = b.role ? g.pick(RT) : g.pick(GT); static const char *ops[] = { "add", "add", "min", "max" };
            b.op = b.role ? ops[g.below(4)] : ""; static const std::vector<size_t> BN = { 1, 2, 3, 8, 12, 16, 20 };
            b.v = rnd_vals(b.t, g.pick(BN)); P.bufs.push_back(b);
        }
        int na = W.arr && (W.arr > 8 || g.chance(1, 2)) ? 1 + g.below(2) : 0;
        for (int k = 0; k < na; ++k) P.arrs.push_back({ g.pick(GT), (int) (1 + g.below(5)) });
        if (na && (W.arr > 8 || g.chance(1, 2))) P.arrs.push_back(P.arrs[0]);
        // functions call functions of higher index only: generate from the last
        int nf = W.call ? 1 + g.below(3) : 0; P.fns.resize(nf);
        for (int f = nf - 1; f >= 0; --f) {
            Fn F; F.types = pick_types(4 + g.below(4)); F.nin = 1 + g.below(3);
            if (g.chance(1, 3)) F.nin = (int) F.types.size() - 1;
            for (size_t k = F.nin; k < F.types.size(); ++k) F.init.push_back(randc(F.types[k]));
            // (variable arrays cannot be used within callables on the LLVM backend)
            Scope S; S.types = F.types; S.infn = true; S.fn = f; for (size_t k = 0; k < F.alen.size(); ++k) S.arrs.push_back({ F.atype[k], F.alen[k] });
            int no = 1 + g.below(3); for (int k = 0; k < no; ++k) F.rt.push_back(S.types[g.below((uint32_t) S.types.size())]);
            if (g.chance(1, 12)) F.rt.clear();
            int ni = 1 + g.below(4); int id = 0;
            Block tmpl; std::vector<Opd> tr; bool use_tmpl = g.chance(1, 2);
            for (int i = 0; i < ni; ++i) {
                id += g.chance(1, 5) ? 2 : 1; F.ids.push_back(id);
                Inst I;
                if (!use_tmpl || i == 0) {
                    gen(S, I.b, 1 + g.below(4), f == nf - 1 ? 1 + g.chance(1, 3) : 1, 4);
                    for (VT t : F.rt) I.r.push_back(opd(S, t));
                    tmpl = I.b; tr = I.r;
                } else { I.b = tmpl; I.r = tr; vary(I.b); if (g.chance(1, 4)) for (size_t q = 0; q < F.rt.size(); ++q) if (g.chance(1, 2)) I.r[q] = opd(S, F.rt[q]); }
                F.inst.push_back(I);
            }
            P.fns[f] = F;
        }
        P.types = pick_types(5 + g.below(5));
        for (size_t k = 0; k < P.types.size(); ++k) {
            if (k == 0) { std::vector<ll> v; for (size_t q = 0; q < P.n; ++q) v.push_back((ll) q); P.init.push_back(v); }
            else P.init.push_back(rnd_vals(P.types[k], g.chance(1, 3) ? 1 : P.n));
        }
        Scope S; S.types = P.types; S.arrs = P.arrs;
        for (size_t k = 0; k < P.arrs.size(); ++k) { auto s = mk("ain"); s->x = (int) k; s->a[0] = opd(S, P.arrs[k].t); P.code.push_back(s); }
        gen(S, P.code, W.top / 2 + g.below(W.top), W.depth, big ? 12 : 8);
        for (size_t k = 0; k < P.arrs.size(); ++k) { int d = slot_of(S, P.arrs[k].t, true); if (d < 0) continue; auto s = mk("ard"); s->d = d; s->x = (int) k; s->i.k = 0; s->i.v = 0; P.code.push_back(s); }
    }
};
