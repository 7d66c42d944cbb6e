// Random histories of the memory allocator and the execution queue, from
// several threads that take turns.  Judged by spec/MemTrace.tla.
//   drv_mem OUT SEED NSTEPS SIM NTHREADS [alloc|queue]
#include "drv.h"
#include <nanothread/nanothread.h>
#include <thread>
#include <mutex>
#include <condition_variable>
extern "C" void nt_set_mode(int, uint64_t);

// A thread that executes closures on request (one at a time)
struct Turn {
    std::thread th; std::mutex m; std::condition_variable cv; std::function<void()> f; bool has = false, stop = false;
    Turn() { th = std::thread([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [this] { return has || stop; }); if (stop) return; f(); has = false; cv.notify_all(); } }); }
    void run(std::function<void()> g) { std::unique_lock<std::mutex> l(m); f = std::move(g); has = true; cv.notify_all(); cv.wait(l, [this] { return !has; }); }
    ~Turn() { { std::unique_lock<std::mutex> l(m); stop = true; } cv.notify_all(); th.join(); }
};

static const int W = 64;
struct Blk { int id, own; bool none, shared; uint32_t n; uint8_t *p; bool pw, pr; }; // pending writes/reads
struct Ev { int id, own; JitEvent e; bool timing, rec; };
struct Hf { int k, t; const uint8_t *p; uint32_t n; };

static std::mutex done_m; static std::vector<std::string> done_q;
static void hf_cb(void *q) {
    Hf *h = (Hf *) q; J j; j.str("e", "hf").i("t", h->t).i("k", h->k).bytes("v", h->p, h->n);
    std::lock_guard<std::mutex> g(done_m); done_q.push_back(j.s); delete h;
}
static void drain() { std::lock_guard<std::mutex> g(done_m); for (auto &s : done_q) { J j; j.s = s; j.emit(); } done_q.clear(); }
static void put(J &j) { drain(); j.emit(); }

int main(int argc, char **argv) {
    if (argc < 6) return 2;
    Rng g(strtoull(argv[2], nullptr, 10)); int steps = atoi(argv[3]), sim = atoi(argv[4]), nt = atoi(argv[5]); bool queue = argc > 6 && !strcmp(argv[6], "queue");
    drv_open(argv[1]); drv_init();
    if (sim) { pool_set_size(nullptr, g.chance(1, 12) ? 1 : 2 + g.below(5)); nt_set_mode(1, strtoull(argv[2], nullptr, 10)); }
    std::vector<Turn> T(nt);
    std::vector<Blk> B; std::vector<Ev> E; std::vector<int> hfs(nt, 0); int nid = 0, eid = 0;
    auto pick = [&](int t, std::function<bool(Blk &)> f) -> Blk * { std::vector<Blk *> c; for (Blk &b : B) if (b.own == t && f(b)) c.push_back(&b); return c.empty() ? nullptr : c[g.below((uint32_t) c.size())]; };
    auto win = [](const Blk &b) { return std::min<uint32_t>(W, b.n); };
    auto synced = [&](int t) { for (Blk &b : B) if (b.own == t) b.pw = b.pr = false; };
    auto where = [](J &j, void *p) -> J & { return j.i("hi", (long long) ((uintptr_t) p >> 30)).i("lo", (long long) ((uintptr_t) p & ((1u << 30) - 1))); };
    auto sizes = [&]() -> uint32_t { uint32_t w = g.below(20); return w < 1 ? 0 : w < 6 ? 1 + g.below(64) : w < 10 ? 1 + g.below(300) : w < 12 ? (1u << (6 + g.below(8))) + g.below(3) - 1 : w < 18 ? 60 + g.below(70) : w < 19 ? 1 + g.below(100000) : (1u << 21) - 70 + g.below(140); };
    auto drop = [&](Blk *b) { B.erase(B.begin() + (b - B.data())); };
    auto hostfn = [&](int t) {
        Blk *b = pick(t, [](Blk &) { return true; }); if (!b) return; b->pr = true; J j;
        drain(); j.str("e", "enq").i("t", t).i("k", hfs[t]).i("h", b->id); j.emit(); // (may be executed right away)
        jit_enqueue_host_func(L, hf_cb, new Hf{ hfs[t]++, t, b->p, win(*b) }); drain();
    };
    long long busy = 0; // total size of the requested blocks
    for (int s = 0; s < steps; ++s) {
        int t = g.below(nt); uint32_t w = g.below(100); if (queue && (w < 24 || (w >= 88 && w < 97)) && B.size() >= 4 && g.chance(3, 4)) w = 24 + g.below(64);
        T[t].run([&] {
            J j; auto guard = [&](auto &&f) -> long long { try { f(); return 0; } catch (const std::exception &) { return -1; } };
            auto any = [](Blk &) { return true; };
            if (w < 14 || (w < 40 && B.size() < 4)) {
                if (B.size() > 24) return;
                uint32_t n = sizes(); bool none = g.chance(1, 4), sh = g.chance(1, 3);
                uint8_t *p = (uint8_t *) jit_malloc(none ? JitBackend::None : L, n, sh);
                j.str("e", "malloc").i("t", t).i("o", nid).i("be", none ? 0 : (int) L).b("sh", sh).i("n", n).b("null", !p); where(j, p); put(j);
                if (!p) return;
                B.push_back({ nid++, t, none, sh && !none, n, p, false, false }); busy += n;
                J q; q.str("e", "dev").i("h", nid - 1).i("r", jit_malloc_device(p)); put(q);
                if ((none || sh) && g.chance(3, 4)) { // immediately writeable
                    Blk &b = B.back(); std::vector<int> v; for (uint32_t k = 0; k < n; ++k) { b.p[k] = (uint8_t) g.below(256); if (k < W) v.push_back(b.p[k]); }
                    J r; r.str("e", "hw").i("h", b.id).i("off", 0).arr("v", v).b("fresh", true); put(r);
                }
                else if (!sh && !none && g.chance(1, 4)) { // full-size asynchronous write
                    uint8_t x = (uint8_t) g.below(256); jit_memset_async(L, p, n, 1, &x); B.back().pw = true;
                    J r; r.str("e", "set").i("t", t).i("h", nid - 1).i("off", 0).i("n", n).i("is", 1).arr("x", std::vector<int>{ x }); put(r);
                }
            } else if (w < 24) {
                Blk *b = pick(t, [](Blk &b) { return !(b.none && (b.pw || b.pr)); }); if (!b) return;
                jit_free(b->p); busy -= b->n; j.str("e", "free").i("t", t).i("h", b->id).i("r", 0); put(j); drop(b);
            } else if (w < 34) { // memset
                Blk *b = pick(t, any); if (!b) return; static const int is[] = { 1, 2, 4, 8 };
                int z = is[g.below(4)]; uint32_t off = g.below(win(*b)) / z * z, m = (b->n - off) / z; if (g.chance(2, 3)) m = std::min<uint32_t>(m, 1 + g.below(20)); if (g.chance(1, 20)) m = 0;
                std::vector<int> x; uint8_t xv[8]; int style = g.below(3); for (int k = 0; k < z; ++k) { xv[k] = (uint8_t) (style == 0 ? 0 : style == 1 ? 7 : g.below(256)); x.push_back(xv[k]); }
                jit_memset_async(L, b->p + off, m, z, xv); b->pw = true;
                j.str("e", "set").i("t", t).i("h", b->id).i("off", off).i("n", m).i("is", z).arr("x", x); put(j);
            } else if (w < 46) { // memcpy
                Blk *a = pick(t, any), *b = pick(t, any); if (!a || a == b) return;
                uint32_t ao = g.below(win(*a)), bo = g.below(win(*b)), m = std::min(a->n - ao, b->n - bo); if (g.chance(1, 2)) m = std::min<uint32_t>(m, g.below(70)); else if (ao != bo) m = std::min<uint32_t>(m, std::min(win(*a) - ao, win(*b) - bo));
                if (m > (uint32_t) W) { if (ao != bo) m = W; }
                if (ao != bo) m = std::min(m, std::min(win(*a) - ao, win(*b) - bo));
                if (g.chance(1, 6)) { jit_memcpy(L, b->p + bo, a->p + ao, m); j.str("e", "cpy").b("sync", true); synced(t); }
                else { jit_memcpy_async(L, b->p + bo, a->p + ao, m); j.str("e", "cpy").b("sync", false); b->pw = true; a->pr = true; }
                j.i("t", t).i("s", a->id).i("so", ao).i("h", b->id).i("off", bo).i("n", m); put(j);
            } else if (w < 54) { // kernel
                Blk *a = pick(t, [&](Blk &b) { return b.n >= (uint32_t) W; }), *b = pick(t, [&](Blk &b) { return b.n >= (uint32_t) W; }); if (!a || a == b) return;
                uint32_t m = g.chance(1, 2) ? std::min(std::min(a->n, b->n), 3000u) : W; int c = g.below(256);
                uint8_t cv = (uint8_t) c; uint32_t va = jit_var_mem_map(L, VarType::UInt8, a->p, m, 0), lc = jit_var_literal(L, VarType::UInt8, &cv, 1), r = jit_var_add(va, lc);
                uint32_t vb = jit_var_mem_map(L, VarType::UInt8, b->p, m, 0), ix = jit_var_counter(L, m), mk = jit_var_bool(L, true);
                uint32_t q = jit_var_scatter(vb, r, ix, mk, ReduceOp::Identity, ReduceMode::Auto); // (in place: no other references)
                bool same = true; { void *pp = nullptr; uint32_t q2 = jit_var_data(q, &pp); same = pp == b->p; jit_var_dec_ref(q2); }
                for (uint32_t v : { va, lc, r, vb, ix, mk, q }) jit_var_dec_ref(v);
                b->pw = a->pr = true; (void) same;
                j.str("e", "kern").i("t", t).i("s", a->id).i("h", b->id).i("n", m).i("c", c); put(j);
            } else if (w < 58) { // aggregate
                Blk *b = pick(t, [&](Blk &b) { return b.n >= (uint32_t) W; }); if (!b) return; int n = 1 + g.below(6);
                AggregationEntry *ag = (AggregationEntry *) jit_malloc(L, sizeof(AggregationEntry) * n, 1); std::string es = "[";
                bool used[8] = {}; int m = 0; static const int zs[] = { 1, 2, 4, 8 };
                for (int k = 0; k < n; ++k) {
                    int sl = g.below(8); if (used[sl]) continue; used[sl] = true; int z = zs[g.below(4)], off = sl * 8 + (z < 8 ? (int) g.below(8 / z) * z : 0);
                    AggregationEntry &e = ag[m]; memset(&e, 0, sizeof e); e.offset = off; J o; o.i("off", off).i("z", z);
                    Blk *a = g.chance(1, 2) ? pick(t, [&](Blk &x) { return &x != b && x.n >= (uint32_t) W; }) : nullptr;
                    if (a) { int so = g.below(64 - z) / z * z; e.size = (int16_t) -z; e.src = a->p + so; a->pr = true; o.i("s", a->id).i("so", so).arr("x", std::vector<int>{}); }
                    else { uint64_t v = g.next(); std::vector<int> x; for (int q = 0; q < z; ++q) x.push_back((int) ((v >> (8 * q)) & 255)); e.size = (int16_t) z; e.src = (const void *) (uintptr_t) v; o.i("s", -1).i("so", 0).arr("x", x); }
                    es += (m ? ",{" : "{") + o.s + "}"; ++m;
                }
                jit_aggregate(L, b->p, ag, m); jit_free(ag); b->pw = true;
                j.str("e", "agg").i("t", t).i("h", b->id).raw("a", es + "]"); put(j);
            } else if (w < 68) { // host access
                Blk *b = pick(t, [](Blk &b) { return !b.pw; }); if (!b) return; uint32_t m = win(*b);
                if (!b->pr && g.chance(1, 3)) { std::vector<int> v; uint32_t off = g.below(m), q = 1 + g.below(m - off); for (uint32_t k = 0; k < q; ++k) { b->p[off + k] = (uint8_t) g.below(256); v.push_back(b->p[off + k]); } j.str("e", "hw").i("h", b->id).i("off", off).arr("v", v).b("fresh", false); put(j); }
                else { j.str("e", "hr").i("h", b->id).bytes("v", b->p, m); put(j); }
            } else if (w < 74) { // host function
                hostfn(t);
            } else if (w < 78) {
                jit_sync_thread(); synced(t); j.str("e", "sync").i("t", t); put(j);
            } else if (w < 79) {
                if (g.chance(1, 2)) jit_sync_device(); else jit_sync_all_devices();
                for (int k = 0; k < nt; ++k) { synced(k); J q; q.str("e", "sync").i("t", k); put(q); }
            } else if (w < 80) { jit_flush_thread(); j.str("e", "nop"); put(j); }
            else if (w < 88) { // events
                if (E.size() < 4 || g.chance(1, 8)) { bool tm = g.chance(1, 2); E.push_back({ eid, t, jit_event_create(L, tm), tm, false }); j.str("e", "evnew").i("o", eid++).b("tm", tm); put(j); }
                // Bursts of operations involving a few events and host functions
                int reps = g.chance(1, 2) ? 1 : 2 + g.below(6); std::vector<int> ids; for (Ev &x : E) if (ids.size() < 2 || g.chance(1, 3)) ids.push_back(x.id);
                for (int rep = 0; rep < reps; ++rep) {
                    if (rep && g.chance(2, 5)) { hostfn(t); continue; }
                    int want = ids[g.below((uint32_t) ids.size())]; size_t pos = 0; while (pos < E.size() && E[pos].id != want) ++pos; if (pos == E.size()) continue;
                    Ev &e = E[pos]; uint32_t q = g.below(reps > 1 ? 17 : 9); J r; if (q >= 9) q = q < 14 ? 0 : 5;
                    if (q < 3) { jit_event_record(e.e); e.own = t; e.rec = true; r.str("e", "evrec").i("h", e.id).i("t", t); put(r); }
                    else if (q < 5) { int v = jit_event_query(e.e); r.str("e", "evq").i("h", e.id).i("r", v); put(r); }
                    else if (q < 7) { jit_event_wait(e.e); r.str("e", "evw").i("h", e.id); put(r); int v = jit_event_query(e.e); J y; y.str("e", "evq1").i("h", e.id).i("r", v); put(y); }
                    else if (q < 8) { Ev &f = E[g.below((uint32_t) E.size())]; float ms = 0; long long rv = guard([&] { ms = jit_event_elapsed_time(e.e, f.e); }); r.str("e", "evt").i("a", e.id).i("b", f.id).i("r", rv).b("fin", std::isfinite(ms)); put(r); }
                    else { r.str("e", "evdel").i("h", e.id); jit_event_destroy(e.e); put(r); E.erase(E.begin() + (&e - E.data())); if (g.chance(1, 4)) jit_event_destroy(nullptr); }
                }
            } else if (w < 93) { // migrate
                Blk *b = pick(t, [](Blk &b) { return !(b.none && (b.pw || b.pr)); }); if (!b) return; bool mv = g.chance(1, 2), tonone = g.chance(1, 2);
                uint8_t *p = (uint8_t *) jit_malloc_migrate(b->p, tonone ? JitBackend::None : L, mv);
                j.str("e", "mig").i("t", t).i("h", b->id).i("be", tonone ? 0 : (int) L).b("mv", mv).b("same", p == b->p).i("o", nid); where(j, p); put(j);
                Blk x = *b; if (mv) { busy -= b->n; drop(b); } else { b->pr = true; }
                x.id = nid++; x.none = tonone; x.shared = false; x.p = p; if (!mv) { x.pw = true; x.pr = false; } busy += x.n; B.push_back(x);
            } else if (w < 95) { // hand a synchronized block to another thread
                Blk *b = pick(t, [](Blk &b) { return !b.pw && !b.pr; }); if (!b) return; b->own = g.below(nt); j.str("e", "give").i("h", b->id).i("t", b->own); put(j);
            } else if (w < 97) {
                if (g.chance(1, 3)) { jit_flush_malloc_cache(); for (int k = 0; k < nt; ++k) synced(k); j.str("e", "flushcache"); put(j); for (int k = 0; k < nt; ++k) { J q; q.str("e", "sync").i("t", k); put(q); } }
                else if (g.chance(1, 2)) { jit_malloc_clear_statistics(); j.str("e", "wmclear"); put(j); }
                else { bool none = g.below(2); j.str("e", "wm").i("be", none ? 0 : (int) L).i("r", (long long) std::min<size_t>(jit_malloc_watermark(none ? JitBackend::None : L), 2000000000)); put(j); }
            } else if (w < 98) { // jit_free(unknown), etc.
                static char dummy[64]; uint32_t q = g.below(5); Blk *b = pick(t, any); void *bad = b && g.chance(1, 2) ? (void *) (b->p + 64) : (void *) dummy;
                for (Blk &x : B) if (x.p == bad) return;
                const char *what = q == 0 ? "free" : q == 1 ? "mig" : q == 2 ? "dev" : q == 3 ? "isize" : "oom"; uint8_t z[8] = {};
                if (q == 4 && !g.chance(1, 4)) return;
                long long r = guard([&] { if (q == 0) jit_free(bad); else if (q == 1) jit_malloc_migrate(bad, L, g.below(2)); else if (q == 2) jit_malloc_device(bad); else if (q == 3) jit_memset_async(L, b ? b->p : (uint8_t *) dummy, 1, 3 + 2 * g.below(2), z); else jit_malloc(g.below(2) ? L : JitBackend::None, (size_t) 1 << 47, g.below(2)); });
                if (q == 4) { for (int k = 0; k < nt; ++k) synced(k); }
                j.str("e", "bad").str("op", what).i("r", r); put(j);
                if (q == 4) for (int k = 0; k < nt; ++k) { J q2; q2.str("e", "sync").i("t", k); put(q2); }
            } else { jit_free(nullptr); j.str("e", "null").b("r", jit_malloc_migrate(nullptr, L, 1) == nullptr); put(j); }
        });
    }
    T[0].run([&] { jit_sync_all_devices(); });
    for (int k = 0; k < nt; ++k) { synced(k); J q; q.str("e", "sync").i("t", k); put(q); }
    for (Blk &b : B) { J j; j.str("e", "hr").i("h", b.id).bytes("v", b.p, win(b)); put(j); J f; f.str("e", "free").i("t", b.own).i("h", b.id).i("r", 0); T[b.own].run([&] { jit_free(b.p); }); put(f); }
    for (Ev &e : E) jit_event_destroy(e.e);
    T[0].run([&] { jit_sync_all_devices(); jit_flush_malloc_cache(); jit_malloc_clear_statistics(); });
    // Everything was returned to the operating system
    for (int k = 0; k < nt; ++k) { J q; q.str("e", "sync").i("t", k); put(q); }
    J c; c.str("e", "wmclear"); put(c);
    for (int be : { 0, (int) L }) { J j; j.str("e", "wmend").i("be", be).i("r", (long long) std::min<size_t>(jit_malloc_watermark((JitBackend) be), 2000000000)); put(j); }
    J j; j.str("e", "end"); put(j); fclose(out_f); out_f = nullptr;
    T.clear(); _exit(0);
}
