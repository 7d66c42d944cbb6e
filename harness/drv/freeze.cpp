// Frozen functions: a random program (prog.h) followed by horizontal
// operations is executed while recording, and the recording is replayed with
// other inputs, in other environments.  Judged by spec/FreezeTrace.tla.
//   drv_freeze OUT SEED FEATURES NPROG NCFG SIM [onlyprog] [onlycfg]
#include "exec.h"

static uint32_t flag_mask(Rng &g) {
    uint32_t f = (uint32_t) JitFlag::Default;
    static const std::vector<JitFlag> T = { JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions, JitFlag::ValueNumbering, JitFlag::ConstantPropagation,
        JitFlag::PacketOps, JitFlag::ReuseIndices, JitFlag::ScatterReduceLocal };
    uint32_t style = g.below(4);
    for (JitFlag x : T) if (style == 0 ? false : style == 1 ? g.chance(1, 8) : g.chance(1, 2)) f ^= (uint32_t) x;
    if (g.chance(1, 6)) f |= (uint32_t) JitFlag::LaunchBlocking;
    if (g.chance(1, 6)) f |= (uint32_t) JitFlag::KernelHistory;
    return f;
}
static size_t live_vars() { const char *s = jit_var_whos(); if (strstr(s, "No variables registered")) return 0; size_t n = 0; for (; *s; ++s) n += *s == '\n'; return n; }

// Horizontal operation on the final slots of a program
struct Hz { std::string k, op; int a = 0, b = 0; int bs = 0, ex = 0, rev = 0, ev = 0; };

static std::vector<Hz> make_hz(Rng &g, const Program &P, bool comp, bool rs) {
    std::vector<Hz> r; int n = g.below(5);
    static const char *ops[] = { "add", "min", "max" };
    std::vector<int> num, flt, bl, u32;
    for (size_t k = 0; k < P.types.size(); ++k) {
        VT t = P.types[k];
        if (t == VT::Bool) bl.push_back((int) k); else if (!is8(t) && !is16(t) && t != VT::Float16) num.push_back((int) k);
        if (t == VT::Float32 || t == VT::Float64) flt.push_back((int) k); if (t == VT::UInt32) u32.push_back((int) k);
    }
    for (int q = 0; q < n; ++q) {
        Hz h; uint32_t w = g.below(comp ? 12 : 11);
        h.op = ops[g.below(3)]; h.a = g.pick(num); h.b = g.pick(u32);
        if (w < 2) h.k = "red";
        else if (w < 3) { h.k = "bred"; h.bs = 1 + g.below((uint32_t) P.n); h.ev = g.below(2); }
        else if (w < 5) { h.k = "pre"; h.ex = g.below(2); h.rev = g.below(2); h.op = "add"; h.bs = g.chance(1, 2) ? (int) P.n : 1 + g.below((uint32_t) P.n); }
        else if (w < 6) { if (flt.empty()) continue; h.k = "dot"; h.a = g.pick(flt); h.b = g.pick(flt); if (P.types[h.a] != P.types[h.b]) h.b = h.a; }
        else if (w < 7) { h.k = g.chance(1, 2) ? "any" : "all"; h.a = g.pick(bl); }
        else if (w < 8) h.k = "ow";
        else if (w < 9) h.k = "gs";
        else if (w < 10) h.k = "ss";
        else if (w < 11) h.k = "bc";
        else { h.k = "comp"; h.a = g.pick(bl); }
        if (rs && (h.k == "bred" || h.k == "pre" || h.k == "gs" || h.k == "ss")) continue; // (refer to the width)
        r.push_back(h);
    }
    return r;
}
static std::string jhz(const std::vector<Hz> &v) {
    std::string s = "["; for (size_t q = 0; q < v.size(); ++q) { J j; const Hz &h = v[q]; j.str("k", h.k).str("op", h.op).i("a", h.a).i("b", h.b).i("bs", h.bs).i("ex", h.ex).i("rev", h.rev); if (q) s += ","; s += "{" + j.s + "}"; } return s + "]";
}
static V sized(const V &v, size_t n) { if (jit_var_size(v.i) == n) return v; return V::steal(jit_var_resize(v.i, n)); }

static V run_hz(const Hz &h, const Program &P, const Env &E) {
    size_t n = P.n; ReduceOp op = h.op == "add" ? ReduceOp::Add : h.op == "min" ? ReduceOp::Min : ReduceOp::Max;
    V a = sized(E.s[h.a], n); VT t = P.types[h.a];
    if (h.k == "red") return V::steal(jit_var_reduce(L, t, op, a.i));
    if (h.k == "bred") { if (h.ev) jit_var_eval(a.i); return V::steal(jit_var_block_reduce(op, a.i, h.bs, h.ev ? -1 : 0)); }
    if (h.k == "pre") return V::steal(jit_var_block_prefix_reduce(op, a.i, h.bs, h.ex, h.rev));
    if (h.k == "dot") { V b = sized(E.s[h.b], n), lim = vlit(t, 100); a = V::steal(jit_var_min(a.i, lim.i)); b = V::steal(jit_var_min(b.i, lim.i)); return V::steal(jit_var_reduce_dot(a.i, b.i)); }
    if (h.k == "any") return V::steal(jit_var_any_async(L, a.i));
    if (h.k == "all") return V::steal(jit_var_all_async(L, a.i));
    if (h.k == "ow") { if (jit_var_state(a.i) == VarState::Literal) { void *q; jit_var_eval(a.i); a = V::steal(jit_var_data(a.i, &q)); } return V::steal(jit_var_opaque_width(a.i)); }
    V tr = vlit(VT::Bool, 1);
    if (h.k == "gs") { V b = sized(E.s[h.b], n), c = vlit(VT::UInt32, (ll) n); V i = V::steal(jit_var_mod(b.i, c.i)); return V::steal(jit_var_gather(a.i, i.i, tr.i)); }
    if (h.k == "ss") {
        V b = sized(E.s[h.b], n), c = vlit(VT::UInt32, (ll) n), lim = vlit(t, 15); V i = V::steal(jit_var_mod(b.i, c.i)), v = V::steal(jit_var_min(a.i, lim.i)), z = vlit(t, 0, n);
        return V::steal(jit_var_scatter(z.i, v.i, i.i, tr.i, ReduceOp::Add, ReduceMode::Auto));
    }
    if (h.k == "bc") { V r = V::steal(jit_var_reduce(L, t, op, a.i)), lim = vlit(t, 1000); V m = V::steal(jit_var_min(r.i, lim.i)); return V::steal(jit_var_add(a.i, m.i)); }
    if (h.k == "comp") return V::steal(jit_var_compress(a.i));
    abort();
}

static std::string jll(const std::vector<std::vector<ll>> &v) { std::string a = "["; for (size_t q = 0; q < v.size(); ++q) { if (q) a += ","; a += jl(v[q]); } return a + "]"; }
static void fz(const char *op, ll r) { J j; j.str("e", "fz").str("op", op).i("r", r).b("flag", jit_flag(JitFlag::FreezingScope)); j.emit(); }

// Everything that is needed to run the program once with concrete inputs
struct Session {
    Program P; Exec X; Env E; std::vector<V> extra; V wide;
    Session(const Program &P_, const Cfg &C, Rng &r) : P(P_), X(P, C) { X.prepare(); E = X.inputs(); for (auto &o : X.opq) extra.push_back(o.second); wide = vmem(VT::Bool, std::vector<ll>(P.n, 1)); extra.push_back(wide); }
    std::vector<uint32_t> in() { std::vector<uint32_t> r; for (V &v : E.s) r.push_back(v.i); for (V &v : X.bufs) r.push_back(v.i); for (V &v : extra) r.push_back(v.i); return r; }
};

struct Shape { std::vector<int> s, b, h; size_t n = 0; }; // position of each result among the (unique) outputs
struct Run { int id; const Program *P; };

static void observe(const char *what, int id, const Program &P, const std::vector<V> &s, const std::vector<V> &b, const std::vector<V> &alias, const std::vector<V> &h) {
    std::vector<std::vector<ll>> sv, bv, iv, hv;
    for (size_t q = 0; q < s.size(); ++q) { sv.push_back(vread(s[q])); if (jit_var_type(s[q].i) != P.types[q]) sv.back().clear(); }
    for (auto &v : b) bv.push_back(vread(v));
    for (size_t q = 0; q < alias.size(); ++q) iv.push_back(alias[q].i ? vread(alias[q]) : P.bufs[q].v);
    for (auto &v : h) hv.push_back(v.i ? vread(v) : std::vector<ll>());
    J j; j.str("e", "obs").str("by", what).i("id", id).raw("s", jll(sv)).raw("b", jll(bv)).raw("i", jll(iv)).raw("h", jll(hv)); j.emit();
}

int main(int argc, char **argv) {
    if (argc < 7) return 2;
    uint64_t seed = strtoull(argv[2], nullptr, 0); std::string feat = argv[3]; int np = atoi(argv[4]), nc = atoi(argv[5]), sim = atoi(argv[6]);
    int only = argc > 7 ? atoi(argv[7]) : -1, onlyc = argc > 8 ? atoi(argv[8]) : -1;
    drv_open(argv[1]);
    if (sim) nt_set_mode(1, (uint32_t) seed);
    drv_init(); drv_no_fp16();
    jit_llvm_set_block_size(16);
    uint32_t cores = pool_size(nullptr);
    for (int p = 0; p < np; ++p) {
        Rng g(seed * 7919 + p);
        Weights W; W.top = 6; W.depth = 2; uint32_t st = g.below(4);
        if (st == 1) { W.mem = 8; W.loop = W.cond = 1; } else if (st == 2) { W.call = 6; W.arr = 0; } else if (st == 3) { W.loop = W.cond = W.call = 1; }
        W.acp = false;
        Program P0; Gen G(g, P0, W); G.make(false);
        // Half of the programs whose inputs all have the full width are also replayed with a different width
        bool rs = P0.n > 2 && P0.arrs.empty() && g.chance(3, 4);
        if (rs) for (size_t k = 1; k < P0.types.size(); ++k) if (P0.init[k].size() != P0.n) P0.init[k] = G.rnd_vals(P0.types[k], P0.n);
        bool comp = g.chance(1, 8); std::vector<Hz> hz = make_hz(g, P0, comp, rs);
        if (only >= 0 && p != only) continue;
        // Input sets: the values of slots (except slot 0) and buffers vary
        std::vector<Program> PS(1, P0);
        for (int q = 0; q < 2; ++q) {
            Program P = P0;
            for (size_t k = 1; k < P.types.size(); ++k) P.init[k] = G.rnd_vals(P.types[k], P.init[k].size());
            for (auto &b : P.bufs) b.v = G.rnd_vals(b.t, b.v.size());
            if (rs) {
                static const uint32_t NS[] = { 3, 7, 16, 17, 33, 64, 75, 131 };
                P.n = NS[g.below(8)]; while (P.n == P0.n) P.n = NS[g.below(8)];
                for (size_t k = 0; k < P.types.size(); ++k) P.init[k] = G.rnd_vals(P.types[k], P.n);
                for (size_t i = 0; i < P.init[0].size(); ++i) P.init[0][i] = (ll) i;
            }
            PS.push_back(P);
        }
        for (size_t q = 0; q < PS.size(); ++q) {
            std::string s = emit_prog(PS[q], (int) q); s.pop_back();
            fputs((s + ",\"pid\":" + std::to_string(p) + ",\"hz\":" + jhz(hz) + "}\n").c_str(), out_f);
        }
        fflush(out_f);
        for (int k = 0; k < nc; ++k) {
            Rng r(g.next()); Cfg C; C.flags = k == 0 ? (uint32_t) JitFlag::Default : flag_mask(r); C.seed = r.next();
            C.sym_cond = k == 0 ? 4 : r.below(5); C.eval = k == 0 || r.chance(1, 2) ? 0 : r.below(5); C.modes = k && r.chance(1, 2);
            static const uint32_t CO[] = { 1, 2, 8, 8 }; C.cores = CO[r.below(4)]; uint32_t cores2 = C.cores; // (a recording depends on the number of workers)
            bool flush = r.chance(1, 5), abort_first = r.chance(1, 6), pauses = r.chance(1, 3), other_flags = r.chance(1, 4);
            if (rs) { C.eval = 0; C.modes = false; pauses = false; }
            if (onlyc >= 0 && k != onlyc) continue;
            if (getenv("DRV_V")) fprintf(stderr, "program %d cfg %d: %s\n", p, k, C.str().c_str());
            { J j; j.str("e", "cfg").i("pid", p).i("k", k).str("c", C.str()); j.emit(); }
            jit_set_flags(C.flags);
            if (C.cores != cores) { jit_sync_thread(); pool_set_size(nullptr, cores = C.cores); }
            Recording *rec = nullptr; bool lit = false;
            try {
                auto work = [&](Session &S, std::vector<V> &h, bool rec) {
                    std::vector<int> alen; for (auto &a : S.P.arrs) { alen.push_back(a.len); S.E.x.push_back(V::steal(jit_array_create(L, a.t, S.P.n, a.len))); }
                    Exec::Ctx c; c.types = &S.P.types; c.alen = &alen; c.sym = false; c.infn = false;
                    if (rec && pauses) {
                        Block b; size_t cut = r.below((uint32_t) S.P.code.size() + 1); b.assign(S.P.code.begin(), S.P.code.begin() + cut); S.X.run(S.E, b, c);
                        jit_eval(); // (pending side effects evaluated during the pause are not recorded)
                        fz("pause", jit_freeze_pause(L)); if (r.chance(1, 4)) fz("pause", jit_freeze_pause(L));
                        { // something unrelated (synchronous reads are only allowed here)
                            V x = vmem(VT::UInt32, { 1, 2, 3 }), y = V::steal(jit_var_add(x.i, x.i)); std::vector<ll> v = vread(y); V z = V::steal(jit_var_reduce(L, VT::UInt32, ReduceOp::Add, y.i)); v.push_back(vread(z)[0]);
                            J j; j.str("e", "mid").arr("v", v); j.emit();
                        }
                        fz("resume", jit_freeze_resume(L)); if (r.chance(1, 4)) fz("resume", jit_freeze_resume(L));
                        b.assign(S.P.code.begin() + cut, S.P.code.end()); S.X.run(S.E, b, c);
                    } else S.X.run(S.E, S.P.code, c);
                    S.E.x.clear();
                    // (the width of kernels is inferred from their inputs)
                    if (rs) for (size_t q = 0; q < S.E.s.size(); ++q) { V z = vlit(S.P.types[q], 0); S.E.s[q] = V::steal(jit_var_select(S.wide.i, S.E.s[q].i, z.i)); }
                    // (results that are uniform have a fixed width)
                    if (rec) { lit = false; for (V &v : S.E.s) lit |= jit_var_state(v.i) == VarState::Literal || jit_var_size(v.i) != S.P.n; }
                    for (auto &q : hz) h.push_back(run_hz(q, S.P, S.E));
                    for (V &v : S.E.s) jit_var_schedule(v.i); for (V &v : S.X.bufs) jit_var_schedule(v.i); for (V &v : h) if (v.i) jit_var_schedule(v.i);
                    jit_eval();
                    // (literals need their own storage)
                    auto own = [&](V &v) { if (!v.i) return; void *q = nullptr; v = V::steal(jit_var_data(v.i, &q)); };
                    for (V &v : S.E.s) own(v); for (V &v : S.X.bufs) own(v); for (V &v : h) own(v);
                };
                auto record = [&](int id, bool aborting) {
                    Session S(PS[id], C, r); std::vector<V> h; std::vector<uint32_t> in = S.in(); Shape sh;
                    std::vector<V> hold = S.E.s; // (the slots themselves are never modified)
                    jit_freeze_start(L, in.data(), (uint32_t) in.size()); fz("start", 0);
                    try { work(S, h, true); } catch (...) { jit_freeze_abort(L); fz("abort", 0); throw; }
                    if (aborting) { jit_freeze_abort(L); fz("abort", 0); }
                    else {
                        std::vector<uint32_t> out; auto add = [&](std::vector<int> &pos, const V &v) { if (!v.i) { pos.push_back(-1); return; } for (size_t q = 0; q < out.size(); ++q) if (out[q] == v.i) { pos.push_back((int) q); return; } pos.push_back((int) out.size()); out.push_back(v.i); };
                        for (V &v : S.E.s) add(sh.s, v); for (V &v : S.X.bufs) add(sh.b, v); for (V &v : h) add(sh.h, v);
                        sh.n = out.size();
                        rec = jit_freeze_stop(L, out.data(), (uint32_t) out.size()); fz("stop", 0);
                    }
                    hold.clear();
                    observe(aborting ? "abort" : "record", id, S.P, S.E.s, S.X.bufs, S.X.alias, h);
                    return sh;
                };
                if (abort_first) record((int) r.below(3), true);
                int cur = (int) r.below(3); Shape sh = record(cur, false);
                if (flush) { jit_flush_kernel_cache(); fz("flush", 0); }
                if (cores2 != cores) { jit_sync_thread(); pool_set_size(nullptr, cores = cores2); }
                if (other_flags) jit_set_flags(flag_mask(r));
                int nr = 2 + r.below(3);
                for (int q = 0; q < nr; ++q) {
                    int id = (int) r.below(3); if (lit && PS[id].n != PS[cur].n) id = cur; Session S(PS[id], C, r); std::vector<uint32_t> in = S.in();
                    int dry = jit_freeze_dry_run(rec, in.data()); fz("dry", dry);
                    if (!dry) {
                        jit_freeze_destroy(rec); rec = nullptr; jit_set_flags(C.flags); jit_freeze_abort(L); // (abort without a recording has no effect)
                        sh = record(cur = id, false); continue;
                    }
                    std::vector<uint32_t> out(sh.n, 0); jit_freeze_replay(rec, in.data(), out.data()); fz("replay", 0);
                    std::vector<V> ov; for (uint32_t o : out) ov.push_back(V::steal(o));
                    std::vector<V> s, b, h; for (int k : sh.s) s.push_back(ov[k]); for (int k : sh.b) b.push_back(ov[k]); for (int k : sh.h) h.push_back(k < 0 ? V() : ov[k]);
                    ov.clear(); S.E.s.clear(); S.X.bufs.clear();
                    observe("replay", id, S.P, s, b, S.X.alias, h);
                }
            } catch (const std::exception &e) { J j; j.str("e", "err").str("what", e.what()); j.emit(); }
            if (rec) jit_freeze_destroy(rec);
            jit_eval();
            if (getenv("DRV_V") && live_vars()) fprintf(stderr, "%s\n", jit_var_whos());
            jit_kernel_history_clear();
            { J j; j.str("e", "live").i("r", (ll) live_vars()).b("flag", jit_flag(JitFlag::FreezingScope)); j.emit(); }
            fflush(out_f);
        }
    }
    { J j; j.str("e", "end").b("ok", true); j.emit(); }
    fclose(out_f);
    return 0;
}
