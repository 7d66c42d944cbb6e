// Several threads execute random programs and share variables.  The library
// is built with std::mutex (DRJIT_USE_STD_MUTEX); this driver interposes on its
// lock operations and lets one thread run at a time: a seeded scheduler decides at
// every release of a lock which thread continues.  This reaches (reproducibly)
// all interleavings at the granularity of the library's critical sections,
// including those that it opens up temporarily while it compiles or waits.
//   drv_thr OUT SEED NTHREADS NROUNDS
#include "exec.h"
#include <nanothread/nanothread.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <dlfcn.h>
#include <link.h>
extern "C" void nt_set_mode(int, uint64_t);
extern "C" void nt_set_yield(void (*)());

// ------------------------------------------------------------------ scheduler
static uintptr_t lib_lo = 0, lib_hi = 0;
static int (*real_lock)(pthread_mutex_t *), (*real_unlock)(pthread_mutex_t *), (*real_trylock)(pthread_mutex_t *);
static void *main_lock = nullptr;             // state.lock (the first one that the library acquires)
static thread_local int me = -1, noyield = 0;
static bool verbose = getenv("DRV_V") != nullptr;
static struct Sched {
    std::mutex m; std::condition_variable cv; int cur = 0; std::vector<char> live; Rng g{1}; uint64_t seed = 0; uint64_t switches = 0, stuck = 0;
    void give(int k) { if (verbose) fprintf(stderr, "[thread %d -> %d]\n", me, k); std::unique_lock<std::mutex> l(m); cur = k; ++switches; cv.notify_all(); int self = me; cv.wait(l, [&] { return cur == self; }); }
    int other() { std::vector<int> c; for (size_t k = 0; k < live.size(); ++k) if (live[k] && (int) k != me) c.push_back((int) k); return c.empty() ? -1 : c[g.below((uint32_t) c.size())]; }
    void force() { int k = other(); if (k < 0 || ++stuck > 2000000) { fprintf(stderr, "deadlock\n"); abort(); } give(k); }
    void point(uintptr_t site) {
        stuck = 0; if (noyield) return;
        uint64_t h = (site + 1) * 0x9E3779B97F4A7C15ull ^ seed; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        uint32_t c = h % 16; if (!g.chance(1, c < 2 ? 2 : c < 6 ? 20 : 300)) return;
        int k = other(); if (k >= 0) give(k);
    }
    void leave() { std::unique_lock<std::mutex> l(m); live[me] = 0; int k = other(); cur = k; cv.notify_all(); }
    void enter(int k) { me = k; std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == k; }); }
} S;
static bool in_lib(void *p) { return (uintptr_t) p - lib_lo < lib_hi - lib_lo; }
static void init_real() { real_lock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); real_unlock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); real_trylock = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
extern "C" __attribute__((visibility("default"))) int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!real_lock) init_real();
    if (!lib_lo || !in_lib(__builtin_return_address(0))) return real_lock(m);
    if (!main_lock) main_lock = m;
    if (me < 0) return real_lock(m);
    while (real_trylock(m)) S.force();
    return 0;
}
extern "C" __attribute__((visibility("default"))) int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!real_unlock) init_real();
    int r = real_unlock(m);
    if (me >= 0 && m == main_lock && in_lib(__builtin_return_address(0))) S.point((uintptr_t) __builtin_return_address(0) - lib_lo);
    return r;
}
static void nt_yield() { if (me >= 0) S.force(); else sched_yield(); }

// ------------------------------------------------------------------ shared state
struct NoYield { NoYield() { ++noyield; } ~NoYield() { --noyield; } };
// (only the running thread accesses these)
static std::vector<V> slots; static std::vector<int> ver; static int nver = 0;
static void emit(J &j) { j.emit(); }

static V publish(Rng &g, std::vector<ll> &val) { // a value that other threads will use: evaluated, or not yet
    size_t n = 1 + g.below(40); ll m = 1 + g.below(9), a = g.below(50); V r;
    if (g.chance(1, 2)) { for (size_t k = 0; k < n; ++k) val.push_back(g.below(100)); r = vmem(VT::UInt32, val); if (g.chance(1, 2)) return r; }
    else { for (size_t k = 0; k < n; ++k) val.push_back((ll) k); r = V::steal(jit_var_counter(L, n)); }
    V mm = vlit(VT::UInt32, m), aa = vlit(VT::UInt32, a);
    for (ll &x : val) x = x * m + a;
    r = V::steal(jit_var_mul(r.i, mm.i)); r = V::steal(jit_var_add(r.i, aa.i));
    if (g.chance(1, 4)) jit_var_schedule(r.i);
    if (g.chance(1, 4)) jit_var_eval(r.i);
    return r;
}

static void shared_step(int t, Rng &g) {
    uint32_t w = g.below(100), k = g.below((uint32_t) slots.size());
    if (w < 25) {
        std::vector<ll> val; V r = publish(g, val), old; J j;
        { NoYield ny; old = slots[k]; slots[k] = r; ver[k] = ++nver; j.str("e", "pub").i("t", t).i("k", k).i("v", nver).arr("r", val); emit(j); }
        return;
    }
    if (w < 85) {
        V v; int id; { NoYield ny; v = slots[k]; id = ver[k]; } J j;
        jit_new_scope(L); // (required before accessing a variable of another thread)
        if (w < 45) { // arithmetic
            ll m = 1 + g.below(9), a = g.below(50); V mm = vlit(VT::UInt32, m), aa = vlit(VT::UInt32, a); V r = V::steal(jit_var_mul(v.i, mm.i)); r = V::steal(jit_var_add(r.i, aa.i));
            if (g.chance(1, 3)) { jit_var_schedule(v.i); jit_eval(); }
            std::vector<ll> d = vread(r); j.str("e", "use").i("t", t).i("v", id).i("m", m).i("a", a).arr("r", d);
        } else if (w < 70) { // write to it: other users must not notice
            V keep = v; // (otherwise, this could be the only reference, and the write takes place in-place)
            size_t n = jit_var_size(v.i); ll p = g.below((uint32_t) n), c = g.below(1000); V cc = vlit(VT::UInt32, c), ix = vlit(VT::UInt32, p), tr = vlit(VT::Bool, 1);
            bool lazy = g.chance(1, 2); if (!lazy) ix = V::steal(jit_var_literal(L, VT::UInt32, &p, 1, 1));
            V r = V::steal(jit_var_scatter(v.i, cc.i, ix.i, tr.i, ReduceOp::Identity, ReduceMode::Auto));
            if (g.chance(1, 3)) jit_sync_thread();
            std::vector<ll> d = vread(r), o = vread(v); j.str("e", "upd").i("t", t).i("v", id).i("p", p).i("c", c).arr("r", d).arr("o", o);
        } else if (w < 78) { // read a single element
            size_t n = jit_var_size(v.i), p = g.below((uint32_t) n); uint32_t x = 0; jit_var_read(v.i, p, &x); j.str("e", "get").i("t", t).i("v", id).i("p", (ll) p).i("r", x);
        } else { // horizontal reduction
            V r = V::steal(jit_var_reduce(L, VT::UInt32, ReduceOp::Add, v.i)); std::vector<ll> d = vread(r); j.str("e", "sum").i("t", t).i("v", id).i("r", d[0]);
        }
        emit(j); return;
    }
    switch (g.below(8)) {
        case 0: jit_sync_device(); break;
        case 1: jit_sync_all_devices(); break;
        case 2: jit_flush_malloc_cache(); break;
        case 3: jit_flush_kernel_cache(); break;
        case 4: { NoYield ny; jit_var_whos(); break; }
        case 5: { void *p = jit_malloc(L, 1 + g.below(5000), g.chance(1, 2)); jit_free(p); break; }
        case 6: jit_sync_thread(); break;
        case 7: jit_eval(); break;
    }
}

static uint32_t flag_mask(Rng &g) {
    uint32_t f = (uint32_t) JitFlag::Default;
    for (JitFlag x : { JitFlag::OptimizeLoops, JitFlag::OptimizeCalls, JitFlag::MergeFunctions, JitFlag::ValueNumbering, JitFlag::ConstantPropagation, JitFlag::PacketOps, JitFlag::ReuseIndices, JitFlag::ScatterReduceLocal })
        if (g.chance(1, 5)) f ^= (uint32_t) x;
    if (g.chance(1, 8)) f |= (uint32_t) JitFlag::LaunchBlocking;
    return f;
}

static void thread_main(int t, uint64_t seed, int rounds) {
    Rng g(seed * 131 + t);
    Weights W; W.arr = 0; if (g.chance(1, 2)) W.mem = 6;
    for (int k = 0; k < rounds; ++k) {
        for (uint32_t q = g.below(6); q > 0; --q) shared_step(t, g);
        Program P; { Gen G(g, P, W); G.make(false); }
        Cfg C; C.seed = g.next(); C.flags = flag_mask(g); C.eval = g.below(4); C.opaque = g.below(5); C.sym_loop = g.below(5); C.sym_cond = g.below(5); C.sym_call = g.below(5); C.modes = g.chance(1, 2);
        jit_set_flags(C.flags);
        std::string d;
        try {
            std::string a = "[", b = "[", i = "[";
            Exec X(P, C); X.prepare(); Env E = X.inputs(); X.body_top(E);
            if (g.chance(1, 2)) shared_step(t, g); // (while side effects are pending)
            for (size_t q = 0; q < E.s.size(); ++q) { if (q) a += ","; a += jl(vread(E.s[q])); }
            for (size_t q = 0; q < X.bufs.size(); ++q) { if (q) b += ","; b += jl(vread(X.bufs[q])); }
            for (size_t q = 0; q < X.bufs.size(); ++q) { if (q) i += ","; i += jl(X.alias[q].i ? vread(X.alias[q]) : P.bufs[q].v); }
            d = "\"s\":" + a + "],\"b\":" + b + "],\"i\":" + i + "]";
        } catch (const std::exception &e) { J j; j.str("err", e.what()); d = j.s; }
        if (verbose) fprintf(stderr, "[thread %d: end of program %d]\n", t, t * 1000 + k);
        J j; j.str("e", "obs").i("t", t).i("round", k).raw("v", "{" + d + "}").str("cfg", C.str());
        fputs((emit_prog(P, t * 1000 + k) + "\n").c_str(), out_f); emit(j);
        jit_set_flags((uint32_t) JitFlag::Default);
    }
    jit_eval();
}

static size_t live_vars() { const char *s = jit_var_whos(); if (strstr(s, "No variables registered")) return 0; size_t n = 0; for (; *s; ++s) n += *s == '\n'; return n; }

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    uint64_t seed = strtoull(argv[2], nullptr, 0); int nt = atoi(argv[3]), rounds = atoi(argv[4]);
    drv_open(argv[1]); init_real();
    Dl_info di; if (!dladdr((void *) jit_init, &di)) return 2;
    lib_lo = (uintptr_t) di.dli_fbase; 
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { if (i->dlpi_addr == lib_lo) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) lib_hi = std::max(lib_hi, (uintptr_t) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz)); return 0; }, nullptr);
    nt_set_mode(1, seed); nt_set_yield(nt_yield);
    drv_init();
    if (!main_lock) { fprintf(stderr, "the library was not built with DRJIT_USE_STD_MUTEX\n"); return 2; }
    drv_no_fp16(); jit_llvm_set_block_size(16);
    pool_set_size(nullptr, 4);
    Rng g(seed); S.g = Rng(seed + 7); S.seed = g.next(); S.live.assign(nt, 1);
    slots.resize(3); ver.resize(3);
    for (size_t k = 0; k < slots.size(); ++k) { std::vector<ll> v; slots[k] = publish(g, v); ver[k] = ++nver; J j; j.str("e", "pub").i("t", -1).i("k", k).i("v", nver).arr("r", v); emit(j); }
    jit_eval();
    std::vector<std::thread> T; S.cur = -1;
    for (int t = 0; t < nt; ++t) T.emplace_back([=] { S.enter(t); thread_main(t, seed, rounds); S.leave(); });
    { std::lock_guard<std::mutex> l(S.m); S.cur = 0; S.cv.notify_all(); }
    for (auto &t : T) t.join();
    slots.clear(); jit_eval(); jit_sync_thread();
    J j; j.str("e", "end").i("live", (ll) live_vars()).i("switches", (ll) S.switches); emit(j);
    fclose(out_f);
    return 0;
}
