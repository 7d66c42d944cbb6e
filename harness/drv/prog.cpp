// Random structured programs, each executed in several configurations.
//   drv_prog OUT SEED FEATURES NPROG NCFG SIM
// FEATURES: all | loop | cond | call | mem | arr
#include "exec.h"

static uint32_t flag_mask(Rng &g) {
    uint32_t f = (uint32_t) JitFlag::Default;
    static const std::vector<JitFlag> T = { JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions, JitFlag::ValueNumbering, JitFlag::ConstantPropagation,
        JitFlag::PacketOps, JitFlag::ReuseIndices, JitFlag::ScatterReduceLocal, JitFlag::FastMath };
    uint32_t style = g.below(4);
    for (JitFlag x : T) if (style == 0 ? false : style == 1 ? g.chance(1, 8) : g.chance(1, 2)) f ^= (uint32_t) x;
    if (g.chance(1, 6)) f |= (uint32_t) JitFlag::Debug;
    if (g.chance(1, 8)) f |= (uint32_t) JitFlag::LaunchBlocking;
    if (g.chance(1, 8)) f |= (uint32_t) JitFlag::KernelHistory;
    return f;
}

static size_t live_vars() { const char *s = jit_var_whos(); if (strstr(s, "No variables registered")) return 0; size_t n = 0; for (; *s; ++s) n += *s == '\n'; return n; }

struct Obs { std::string data; std::vector<std::string> cfgs; };

int main(int argc, char **argv) {
    if (argc < 7) return 2;
    uint64_t seed = strtoull(argv[2], nullptr, 0); std::string feat = argv[3]; int np = atoi(argv[4]), nc = atoi(argv[5]), sim = atoi(argv[6]);
    int only = argc > 7 ? atoi(argv[7]) : -1, onlyc = argc > 8 ? atoi(argv[8]) : -1;
    drv_open(argv[1]);
    if (sim) nt_set_mode(1, (uint32_t) seed);
    drv_init();
    drv_no_fp16();
    jit_llvm_set_block_size(16);
    Weights W;
    if (feat == "loop") { W.loop = 7; W.cond = 2; W.call = 0; W.arr = 0; }
    else if (feat == "cond") { W.cond = 8; W.loop = 2; W.call = 0; W.arr = 0; }
    else if (feat == "call") { W.call = 8; W.loop = 1; W.cond = 1; W.arr = 0; W.get = 3; }
    else if (feat == "mem") { W.mem = 10; W.arr = 0; }
    else if (feat == "arr") { W.arr = 5; W.call = 1; W.loop = 4; W.cond = 3; }
    uint32_t cores = pool_size(nullptr);
    for (int p = 0; p < np; ++p) {
        Rng g(seed * 7919 + p);
        Weights W2 = W; if (feat == "arr" && g.chance(1, 2)) { W2.arr = 12; W2.call = 0; W2.loop = W2.cond = g.below(2); W2.mem = W2.get = 0; W2.top = 14; W2.acp = g.chance(2, 3); } else W2.acp = g.chance(1, 3);
        Program P; Gen G(g, P, W2); if (feat == "kf") { if (p == 0) G.kf_array_cond(); else G.kf_array_loop(); } else G.make(false);
        if (only >= 0 && p != only) continue;
        fputs((emit_prog(P, feat == "kf" ? 9001 + p : p) + "\n").c_str(), out_f); fflush(out_f);
        std::vector<Obs> obs;
        for (int k = 0; k < nc; ++k) {
            Rng r(g.next()); Cfg C; C.flags = k == 0 ? (uint32_t) JitFlag::Default : flag_mask(r); C.seed = r.next();
            if (k > 0) { uint32_t st = r.below(4); C.sym_loop = st == 0 ? 0 : st == 1 ? 4 : r.below(5); C.sym_cond = st == 0 ? 0 : st == 1 ? 4 : r.below(5); C.sym_call = st == 0 ? 0 : st == 1 ? 4 : r.below(5);
                         C.eval = r.chance(1, 2) ? 0 : r.below(6); C.opaque = r.chance(1, 2) ? 4 : r.below(5);
                         static const uint32_t cores[] = { 1, 2, 3, 8, 8, 8 }; C.cores = cores[r.below(6)]; C.block = r.chance(1, 2) ? 16 : r.chance(1, 2) ? 32 : 64; C.modes = r.chance(1, 2); }
            if (onlyc >= 0 && k != onlyc) continue;
            if (getenv("DRV_CORES")) C.cores = atoi(getenv("DRV_CORES"));
            if (getenv("DRV_BLOCK")) C.block = atoi(getenv("DRV_BLOCK"));
            if (getenv("DRV_FLAGS")) C.flags = strtoul(getenv("DRV_FLAGS"), nullptr, 16);
            if (getenv("DRV_V")) fprintf(stderr, "program %d cfg %d: %s\n", p, k, C.str().c_str());
            jit_set_flags(C.flags);
            if (C.cores != cores) { jit_sync_thread(); pool_set_size(nullptr, cores = C.cores); }
            jit_llvm_set_block_size(C.block);
            std::string d, err;
            try {
                Exec X(P, C); X.prepare(); Env E = X.inputs(); X.body_top(E);
                if (r.chance(1, 2)) { // evaluate everything at once
                    std::vector<V *> all; for (V &v : E.s) all.push_back(&v); for (V &v : X.bufs) all.push_back(&v);
                    for (size_t q = all.size(); q > 1; --q) std::swap(all[q - 1], all[r.below((uint32_t) q)]);
                    for (V *v : all) if (r.chance(4, 5)) jit_var_schedule(v->i);
                    jit_eval();
                }
                std::vector<std::vector<ll>> sv(E.s.size()), bv(X.bufs.size());
                bool bf = r.chance(1, 2); std::vector<size_t> ord; for (size_t q = 0; q < sv.size(); ++q) ord.push_back(q);
                for (size_t q = ord.size(); q > 1; --q) std::swap(ord[q - 1], ord[r.below((uint32_t) q)]);
                if (bf) for (size_t q = 0; q < bv.size(); ++q) bv[q] = vread(X.bufs[q]);
                for (size_t q : ord) { sv[q] = vread(E.s[q]); if (jit_var_type(E.s[q].i) != P.types[q]) sv[q].clear(); }
                if (!bf) for (size_t q = 0; q < bv.size(); ++q) bv[q] = vread(X.bufs[q]);
                std::string a = "["; for (size_t q = 0; q < sv.size(); ++q) { if (q) a += ","; a += jl(sv[q]); }
                std::string b = "["; for (size_t q = 0; q < bv.size(); ++q) { if (q) b += ","; b += jl(bv[q]); }
                std::string i = "["; for (size_t q = 0; q < bv.size(); ++q) { if (q) i += ","; i += jl(X.alias[q].i ? vread(X.alias[q]) : P.bufs[q].v); }
                d = "\"s\":" + a + "],\"b\":" + b + "],\"i\":" + i + "]";
            } catch (const std::exception &e) { J j; j.str("err", e.what()); d = j.s; }
            jit_eval(); // (side effects on variables that no longer exist may still be pending)
            if (getenv("DRV_V") && live_vars()) fprintf(stderr, "%s\n", jit_var_whos());
            d += ",\"live\":" + std::to_string(live_vars());
            bool found = false;
            for (Obs &o : obs) if (o.data == d) { o.cfgs.push_back(std::to_string(k) + ": " + C.str()); found = true; }
            if (!found) obs.push_back({ d, { std::to_string(k) + ": " + C.str() } });
        }
        for (Obs &o : obs) {
            J j; j.str("e", "obs"); j.raw("v", "{" + o.data + "}").i("count", (ll) o.cfgs.size()).str("cfg", o.cfgs[0]);
            j.emit();
        }
    }
    fclose(out_f);
    return 0;
}
