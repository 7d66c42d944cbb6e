// Random histories of API calls, many of them invalid.  After each call the driver records the whole
// variable graph (as a difference to the previous one).  Judged by spec/LifeTrace.tla.
//   drv_life OUT SEED NSTEPS SIM BAD(percent)
#include "drv.h"
#include <nanothread/nanothread.h>
#include <sstream>

typedef VarType T;
struct H { uint32_t id; T t; size_t n; bool z; };          // z: all entries are zero (usable as an index)
static std::vector<H> hs;                                  // one entry per reference owned by the driver
static Rng g(1);
static std::vector<uint32_t> masks;                        // mask stack
static int bad = 25;

// ---------------------------------------------------------------- observation of the variable graph
struct Row { std::string t, s; size_t n = 0; int r = 0; std::vector<int> d; uint32_t h = 0; bool operator==(const Row &o) const { return t == o.t && s == o.s && n == o.n && r == o.r && d == o.d && h == o.h; } };
static bool contents = true; // also record the contents of evaluated variables (0: unknown)
static uint32_t hash(const void *p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) h = (h ^ ((const uint8_t *) p)[i]) * 16777619u; return (h & 0x3fffffff) | 1; }
static std::map<int, Row> tab;
static std::string trim(const std::string &s) { size_t e = s.size(); while (e && s[e - 1] == ' ') --e; return s.substr(0, e); }
static std::map<int, Row> graph() {
    std::map<int, Row> r; std::istringstream f(jit_var_graphviz()); std::string l;
    while (std::getline(f, l)) {
        size_t p = l.find(" -> ");
        if (l.find("subgraph") != std::string::npos) { if (l.find("cluster_legend") != std::string::npos) break; continue; }
        if (p != std::string::npos && l.find("[label=\"{") == std::string::npos) {
            r[atoi(l.c_str() + p + 4)].d.push_back(atoi(l.c_str())); continue;
        }
        size_t q = l.find(" [label=\"{"); if (q == std::string::npos) continue;
        int id = atoi(l.c_str()); Row &w = r[id];
        size_t a = l.find("|{Type: "), b = l.find("|Size: "), c = l.find("|Refs: ");
        if (a == std::string::npos || b == std::string::npos || c == std::string::npos) abort();
        std::string ty = l.substr(a + 8, b - a - 8); w.t = trim(ty.substr(ty.find(' ') + 1)); w.n = strtoull(l.c_str() + b + 7, nullptr, 10); w.r = atoi(l.c_str() + c + 7);
        static const char *st[] = { "I", "X", "L", "U", "E", "D", "S", "M" }; w.s = st[(int) jit_var_state(id)];
    }
    if (contents) { jit_sync_thread(); for (auto &[i, w] : r) if (w.s == "E" && w.t != "ptr") { VarInfo v = jit_var_info((uint32_t) i); w.h = hash(v.data, v.size * jit_type_size(v.type)); } }
    return r;
}
struct Cb { int tag, free; };
static std::vector<Cb> cbs; static std::vector<uint32_t> freed_by_cb;
struct CbD { int tag; uint32_t drop; };
static void on_cb(uint32_t, int free, void *p) {
    CbD *c = (CbD *) p; cbs.push_back({ c->tag, free });
    if (free) { if (c->drop) { uint32_t d = c->drop; c->drop = 0; jit_var_dec_ref(d); freed_by_cb.push_back(d); } delete c; }
}
static std::vector<uint32_t> content(const std::vector<uint32_t> &ids) {
    std::vector<uint32_t> r;
    for (uint32_t i : ids) {
        if (!i) { r.push_back(0); continue; }
        VarInfo v = jit_var_info(i);
        if (v.state == VarState::Literal) r.push_back(hash(&v.literal, 8));
        else if (v.state == VarState::Evaluated) { jit_sync_thread(); r.push_back(hash(v.data, v.size * jit_type_size(v.type))); }
        else r.push_back(0);
    }
    return r;
}
static long long mem_used() {    // bytes in use according to the statistics (-1: not reported exactly)
    std::string s = jit_var_whos(); size_t p = s.find("   - LLVM "); if (p == std::string::npos) return 0;
    p = s.find(": ", p); double v = atof(s.c_str() + p + 2); size_t q = s.find('/', p);
    std::string u = s.substr(p + 2, q - p - 2); return u.find(" B") != std::string::npos || v == 0 ? (long long) v : -1;
}
static int rv_out = -1; // value returned by scheduling requests
static void emit(const char *f, const std::vector<uint32_t> &a, const std::vector<long long> &p, int ok, const std::vector<uint32_t> &r,
                 const std::vector<uint32_t> &va = {}, const std::vector<uint32_t> &vb = {}) {
    std::map<int, Row> n = graph(); std::string add = "["; std::vector<int> del; bool first = true;
    for (auto &[i, w] : n) {
        auto it = tab.find(i); if (it != tab.end() && it->second == w) continue;
        J j; j.i("i", i).str("t", w.t).str("s", w.s).i("n", (long long) w.n).i("r", w.r).arr("d", w.d).i("h", w.h);
        if (!first) add += ','; first = false; add += "{" + j.s + "}";
    }
    add += "]"; for (auto &[i, w] : tab) if (!n.count(i)) del.push_back(i);
    tab = n;
    std::string c = "["; for (size_t i = 0; i < cbs.size(); ++i) { if (i) c += ','; c += "[" + std::to_string(cbs[i].tag) + "," + std::to_string(cbs[i].free) + "]"; } c += "]"; cbs.clear();
    J().str("f", f).arr("a", a).arr("p", p).i("ok", ok).arr("r", r).raw("add", add).arr("del", del).raw("cb", c).arr("fd", freed_by_cb).arr("va", va).arr("vb", vb).i("rv", rv_out)
       .i("mem", tab.empty() ? (jit_sync_thread(), mem_used()) : -1).emit();
    freed_by_cb.clear(); rv_out = -1;
}

// ---------------------------------------------------------------- operands
static const std::vector<T> TY = { T::UInt32, T::Int32, T::Float32, T::Float64, T::UInt64, T::Bool, T::UInt32, T::Float32 };
static std::vector<size_t> SZ = { 1, 3, 4, 8, 12 };
static const H *find(std::function<bool(const H &)> f) { if (hs.empty()) return nullptr; size_t s = g.below((uint32_t) hs.size()); for (size_t k = 0; k < hs.size(); ++k) { const H &h = hs[(s + k) % hs.size()]; if (f(h)) return &h; } return nullptr; }
static void own(uint32_t id, bool z = false) { if (id) hs.push_back({ id, jit_var_type(id), jit_var_size(id), z }); }
static uint32_t fresh(T t, size_t n, bool z, int how = -1) {
    uint8_t b[256] = {}; size_t sz = jit_type_size(t); if (how < 0) how = g.below(4);
    for (size_t i = 0; i < n && !z; ++i) { uint64_t v = t == T::Bool ? g.below(2) : t == T::Float32 ? 0x3f800000u + (g.below(4) << 22) : t == T::Float64 ? 0x3ff0000000000000ull : g.below(5); memcpy(b + i * sz, &v, sz); }
    uint32_t id;
    if (how == 0) { id = jit_var_literal(L, t, b, n, 0); own(id, z); emit("lit", {}, { (long long) n, (long long) t }, 1, { id }); }
    else if (how == 1) { void *p = jit_malloc(L, n * sz, 1); memcpy(p, b, n * sz); id = jit_var_mem_map(L, t, p, n, 1); own(id, z); emit("mem", {}, { (long long) n, (long long) t }, 1, { id }); }
    else { id = jit_var_mem_copy(L, t, b, n, 1); own(id, z); emit("mem", {}, { (long long) n, (long long) t }, 1, { id }); }
    return id;
}
// An operand with the given type/size; sometimes something else
static uint32_t get(T t, size_t n, bool z = false, bool opt = true) {
    if (g.chance(1, 40) && opt) return 0;
    const H *h = g.chance(5, 6) ? find([&](const H &x) { return x.t == t && (x.n == n || x.n == 1) && (!z || x.z); }) : nullptr;
    return h ? h->id : fresh(t, g.chance(1, 3) ? 1 : n, z);
}
static size_t rsz() { return SZ[g.below((uint32_t) SZ.size())]; }
static bool wrong() { return g.chance(bad, 100); }

// Run a call; record outcome
static std::vector<uint32_t> call(const char *f, std::vector<uint32_t> a, std::vector<long long> p, std::function<std::vector<uint32_t>()> fn, bool keep = true, bool z = false) {
    std::vector<uint32_t> va = content(a), r; int ok = 1;
    if (getenv("LIFE_TRACE")) { fprintf(stderr, "> %s", f); for (uint32_t i : a) fprintf(stderr, " %u", i); for (long long i : p) fprintf(stderr, " (%lli)", i); fprintf(stderr, " :"); for (uint32_t v : va) fprintf(stderr, " %u", v); fputc(10, stderr); }
    try { r = fn(); } catch (const std::exception &e) { ok = 0; r.clear(); fprintf(stderr, "%s: %s\n", f, e.what()); }
    std::vector<uint32_t> vb = ok ? va : content(a);
    if (ok && keep) for (uint32_t i : r) own(i, z);
    if (!ok || true) emit(f, a, p, ok, r, ok ? std::vector<uint32_t>() : va, ok ? std::vector<uint32_t>() : vb);
    return r;
}
static void drop(size_t k) { uint32_t id = hs[k].id; hs.erase(hs.begin() + k); call("dec", { id }, {}, [&] { jit_var_dec_ref(id); return std::vector<uint32_t>(); }); for (uint32_t &d : std::vector<uint32_t>()) (void) d; }
// The results of these operations can only be computed once, together with the side effect
static void done(uint32_t a, uint32_t b) { jit_var_schedule(a); jit_var_schedule(b); jit_eval(); }

// ---------------------------------------------------------------- recordings that are abandoned
static void symbolic_abort() {
    int kind = g.below(7); size_t n = rsz();
    uint32_t x = get(T::UInt32, n, false, false), y = get(T::Float32, n, false, false), m = get(T::Bool, n, false, false), tg = get(T::Float32, 8, false, false), zi = get(T::UInt32, n, true, false);
    std::vector<uint32_t> ops = { x, y, m, tg, zi }; jit_eval(); emit("eval", {}, {}, 1, {}); // nothing is pending
    std::vector<uint32_t> va = content(ops); int raised = 0, expected = 0; bool dbg = false; (void) dbg;
    auto attempt = [&](const char *what, auto &&f, bool must = true) { if (!must) return; ++expected; try { f(); fprintf(stderr, "accepted: kind %i, %s\n", kind, what); } catch (const std::exception &e) { (void) e; ++raised; } };
    std::vector<uint32_t> tmp; auto keep = [&](uint32_t v) { if (v) tmp.push_back(v); return v; };
    if (kind <= 3) {                                         // loop
        uint32_t st[2] = { x, y }; uint32_t cp = jit_record_begin(L, "life"), loop = 0; bool ended = false;
        try {
            loop = jit_var_loop_start("life", true, 2, st); keep(loop); uint32_t px = st[0], py = st[1]; keep(px); keep(py);
            uint32_t lim = keep(jit_var_u32(L, 5));
            uint32_t c = keep(jit_var_lt(px, lim));
            if (g.chance(1, 2)) attempt("read", [&] { uint32_t v; jit_var_read(px, 0, &v); });
            if (g.chance(1, 2)) attempt("eval", [&] { jit_var_eval(py); });
            if (g.chance(1, 3)) attempt("all", [&] { uint64_t v = jit_var_all(c); (void) v; });
            if (g.chance(1, 3)) attempt("all_async", [&] { uint32_t q = 0; q = jit_var_all_async(L, c); keep(q); });
            if (g.chance(1, 3)) attempt("any_async", [&] { uint32_t q = jit_var_any_async(L, c); keep(q); });
            if (g.chance(1, 3)) attempt("reduce", [&] { uint32_t q = jit_var_reduce(L, T::Float32, ReduceOp::Add, py); keep(q); });
            if (g.chance(1, 3)) attempt("copy_opaque", [&] { uint32_t q = jit_var_copy_opaque(py); keep(q); });
            if (g.chance(1, 3)) attempt("schedule_force", [&] { int rv; uint32_t q = jit_var_schedule_force(py, &rv); keep(q); });
            if (g.chance(1, 3)) attempt("data", [&] { void *pp; uint32_t q = jit_var_data(py, &pp); keep(q); });
            if (jit_var_size(py) > 1 && g.chance(1, 3)) attempt("block_prefix_reduce", [&] { uint32_t q = jit_var_block_prefix_reduce(ReduceOp::Add, py, (uint32_t) n, 1, 0); keep(q); });
            if (g.chance(1, 3)) attempt("compress", [&] { uint32_t q = jit_var_compress(c); keep(q); });
            if (kind == 0) attempt("loop_cond", [&] { keep(jit_var_loop_cond(loop, px)); });
            else {
                uint32_t lc = keep(jit_var_loop_cond(loop, c)); jit_var_mask_push(L, c);
                uint32_t one = keep(jit_var_u32(L, 1)), nx = keep(jit_var_add(px, one)), ny = keep(jit_var_add(py, py));
                if (g.chance(2, 3) && tg && jit_var_type(tg) == T::Float32) {
                    uint32_t s = jit_var_scatter(tg, py, zi, m, ReduceOp::Add, ReduceMode::Auto); keep(s);
                }
                jit_var_mask_pop(L);
                if (kind == 1 && jit_var_size(py) > 1 && jit_var_state(m) != VarState::Literal) { // gather from an array that the loop changes
                    if (g.chance(1, 2)) keep(jit_var_gather(py, zi, m)); else { uint32_t o[2] = { 0, 0 }; jit_var_size(py) % 2 == 0 ? jit_var_gather_packet(2, py, zi, m, o) : (void) (o[0] = jit_var_gather(py, zi, m)); keep(o[0]); keep(o[1]); }
                    attempt("loop_end", [&] { uint32_t rs[2] = { nx, ny }; jit_var_loop_end(loop, lc, rs, cp); keep(rs[0]); keep(rs[1]); });
                }
                if (kind == 2) attempt("loop_end", [&] { uint32_t w = keep(jit_var_counter(L, 7)); uint32_t rs[2] = { nx, ny }; if (g.chance(1, 2)) rs[0] = keep(jit_var_add(nx, w)); else rs[1] = keep(jit_var_add(ny, keep(jit_var_cast(w, T::Float32, 0)))); jit_var_loop_end(loop, lc, rs, cp); keep(rs[0]); keep(rs[1]); }); // sizes change (if n is neither 1 nor 7)
                if (kind == 2 && (n == 1 || (jit_var_size(x) == 1 && jit_var_size(y) == 1))) expected = raised;
            }
            throw std::runtime_error("abandon");
        } catch (const std::exception &) {}
        (void) ended; jit_record_end(L, cp, 1);
    } else if (kind <= 5) {                                  // conditional
        uint32_t cp = jit_record_begin(L, "life"), m2 = keep(jit_var_not(m)), c = 0;
        try {
            c = keep(jit_var_cond_start("life", true, m, m2));
            uint32_t a = keep(jit_var_add(y, y)); 
            size_t no = 1 + g.below(4), wrongp = g.below((uint32_t) no); std::vector<uint32_t> t1(no, a), f1(no, a), f2(no + 1, a); uint32_t b = keep(jit_var_mul(y, y));
            for (size_t q = 0; q < no; ++q) switch (g.below(5)) { // different kinds of outputs precede and follow the one that is refused
                case 0: f1[q] = b; break;
                case 1: t1[q] = b; break;
                case 2: { float z = 7; t1[q] = keep(jit_var_literal(L, T::Float32, &z, 1, 0)); f1[q] = keep(jit_var_literal(L, T::Float32, &z, 1, 0)); break; }
                case 3: t1[q] = y; f1[q] = b; break;
                default: break;
            }
            if (kind == 4) switch (g.below(3)) {
                case 0: f1[wrongp] = 0; break;
                case 1: t1[wrongp] = 0; break;
                default: t1[wrongp] = keep(jit_var_counter(L, 7)); f1[wrongp] = keep(jit_var_counter(L, 9)); break; // sizes
            }
            if (g.chance(1, 2)) { uint32_t s = jit_var_scatter(tg, y, zi, m, ReduceOp::Add, ReduceMode::Auto); keep(s); }
            keep(jit_var_cond_append(c, t1.data(), no));
            if (kind == 5) attempt("cond_append", [&] { jit_var_cond_append(c, f2.data(), g.chance(1, 2) ? no + 1 : no - 1); });
            else { keep(jit_var_cond_append(c, f1.data(), no)); attempt("cond_end", [&] { std::vector<uint32_t> o(no, 0); jit_var_cond_end(c, o.data()); for (uint32_t q : o) keep(q); }); }
            throw std::runtime_error("abandon");
        } catch (const std::exception &) {}
        jit_record_end(L, cp, 1);
    } else {                                                 // scatters within an abandoned recording
        uint32_t cp = jit_record_begin(L, "life");
        try {
            uint32_t ci = keep(jit_var_call_input(y)), cm = keep(jit_var_call_input(m)), cz = keep(jit_var_call_input(zi));
            uint32_t s = jit_var_scatter(tg, ci, cz, cm, ReduceOp::Add, ReduceMode::Auto); keep(s);
            attempt("scatter", [&] { jit_var_eval(ci); }, jit_var_state(ci) != VarState::Literal);
            attempt("state", [&] { uint32_t q = jit_var_scatter(ci, ci, cz, cm, ReduceOp::Add, ReduceMode::Auto); keep(q); }, jit_var_state(ci) != VarState::Literal);
            throw std::runtime_error("abandon");
        } catch (const std::exception &) {}
        jit_record_end(L, cp, 1);
    }
    for (size_t i = tmp.size(); i-- > 0;) jit_var_dec_ref(tmp[i]);
    emit("sym", ops, { kind, expected, raised }, 0, {}, va, content(ops));
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    g = Rng(strtoull(argv[2], nullptr, 10)); int steps = atoi(argv[3]), sim = atoi(argv[4]); if (argc > 5) bad = atoi(argv[5]);
    drv_open(argv[1]); drv_init(); contents = !sim; if (sim) nt_set_mode(1, g.next());
    jit_set_flag(JitFlag::ReuseIndices, 0);
    uint32_t base = jit_flags();
    int tag = 0, only_new = 0;
    typedef std::vector<uint32_t> V; typedef std::vector<long long> P;
    static const VarType NT[] = { T::UInt32, T::Int32, T::Float32, T::Float64, T::UInt64 };
    for (int k = 0; k < steps; ++k) {
        if (k % 60 == 0) { // other flags
            jit_set_flags(base); for (JitFlag f : { JitFlag::ConstantPropagation, JitFlag::ValueNumbering, JitFlag::PacketOps, JitFlag::ReuseIndices }) (void) f;
            jit_set_flag(JitFlag::ConstantPropagation, g.chance(1, 2)); jit_set_flag(JitFlag::ValueNumbering, g.chance(1, 2)); jit_set_flag(JitFlag::PacketOps, g.chance(1, 2)); jit_set_flag(JitFlag::ScatterReduceLocal, g.chance(1, 2));
            bool big = g.chance(1, 6); SZ = big ? std::vector<size_t>{ 1, 17, 32 } : std::vector<size_t>{ 1, 3, 4, 8, 12 };
        }
        if (k % 97 == 96 || k + 1 == steps) { // release everything
            while (!masks.empty()) { masks.pop_back(); call("mpop", {}, {}, [&] { jit_var_mask_pop(L); return V(); }); }
            while (!hs.empty()) drop(g.below((uint32_t) hs.size()));
            call("eval", {}, {}, [&] { jit_eval(); return V(); }); call("gone", {}, {}, [&] { jit_sync_thread(); return V(); });
            continue;
        }
        while (hs.size() > 14) drop(g.below((uint32_t) hs.size()));
        size_t n = rsz(), n2 = wrong() ? rsz() : n; T t = TY[g.below((uint32_t) TY.size())], t2 = wrong() ? TY[g.below((uint32_t) TY.size())] : t;
        if (t == T::Bool && t2 == T::Bool && g.chance(1, 2)) t = t2 = T::UInt32;
        T nt = t == T::Bool ? T::Float32 : t;
        switch (g.below(53)) {
            case 0: case 1: fresh(t, n, false); break;
            case 2: call("lit", {}, { 0, (long long) t }, [&] { uint64_t z = 0; return V{ jit_var_literal(L, t, &z, 0, 0) }; }); break;
            case 3: call("counter", {}, { (long long) n }, [&] { return V{ jit_var_counter(L, n) }; }); break;
            case 4: case 5: { uint32_t a = get(nt, n), b = get(nt, n2); int o = g.below(4); call("bin", { a, b }, {}, [&] { return V{ o == 0 ? jit_var_add(a, b) : o == 1 ? jit_var_mul(a, b) : o == 2 ? jit_var_sub(a, b) : jit_var_max(a, b) }; }); break; }
            case 6: { uint32_t a = get(nt, n), b = get(nt, n2); int o = g.below(3); call("cmp", { a, b }, {}, [&] { return V{ o == 0 ? jit_var_lt(a, b) : o == 1 ? jit_var_eq(a, b) : jit_var_neq(a, b) }; }); break; }
            case 7: case 8: { uint32_t a = get(nt, n), b = get(nt, n2), c = get(nt, n); call("fma", { a, b, c }, {}, [&] { return V{ jit_var_fma(a, b, c) }; }); break; }
            case 9: { uint32_t m = get(T::Bool, n), b = get(t, n2), c = get(t, n); call("sel", { m, b, c }, {}, [&] { return V{ jit_var_select(m, b, c) }; }); break; }
            case 10: { uint32_t a = get(T::Bool, n), b = get(T::Bool, n2); call("bin", { a, b }, {}, [&] { return V{ g.chance(1, 2) ? jit_var_and(a, b) : jit_var_or(a, b) }; }); break; }
            case 11: { uint32_t a = get(nt, n); T c = NT[g.below(5)]; call("cast", { a }, { (long long) c }, [&] { return V{ jit_var_cast(a, c, 0) }; }); break; }
            case 12: { uint32_t a = get(nt, n); call("un", { a }, {}, [&] { return V{ jit_var_neg(a) }; }); break; }
            case 13: case 14: case 15: { uint32_t s = get(t, n2), i = get(T::UInt32, n, true), m = get(T::Bool, wrong() ? rsz() : n); call("gather", { s, i, m }, {}, [&] { return V{ jit_var_gather(s, i, m) }; }); break; }
            case 16: { size_t c = 1 + g.below(4); uint32_t s = get(t, g.chance(1, 2) ? 12 : n2), i = get(T::UInt32, n, true), m = get(T::Bool, wrong() ? rsz() : n);
                V o(c, 0); call("gpack", { s, i, m }, { (long long) c }, [&] { jit_var_gather_packet(c, s, i, m, o.data()); return o; }); break; }
            case 17: case 18: case 19: case 20: { // scatter
                const H *h = find([&](const H &x) { return !x.z && x.t == t; }); if (!h) { fresh(t, n, false); break; }
                uint32_t tg = g.chance(1, 30) ? 0 : h->id; size_t hn = h->n; (void) hn; uint32_t v = get(t2, n), i = get(T::UInt32, wrong() ? rsz() : n, true), m = get(T::Bool, wrong() ? rsz() : n, false, false);
                ReduceOp op = (ReduceOp) g.below(7); ReduceMode mo = (ReduceMode) g.pick(std::vector<int>{ 0, 1, 2, 3 });
                if (op > ReduceOp::Max && t2 == T::Bool) op = ReduceOp::Identity;
                if (t == T::Bool) op = ReduceOp::Identity; // reductions of booleans are not supported by LLVM
                call("scatter", { tg, v, i, m }, { (long long) op }, [&] { return V{ jit_var_scatter(tg, v, i, m, op, mo) }; }); break; }
            case 21: case 22: { size_t c = 2 + g.below(3); const H *h = find([&](const H &x) { return !x.z && x.t == t && x.n > 1; }); if (!h || t == T::Bool) { fresh(nt, 12, false); break; }
                uint32_t tg = h->id; V va; for (size_t q = 0; q < c; ++q) va.push_back(get(q > 0 && wrong() ? NT[g.below(5)] : t, wrong() ? rsz() : n, false, false));
                uint32_t i = get(T::UInt32, n, true, false), m = get(T::Bool, wrong() ? rsz() : n, false, false); ReduceOp op = g.chance(1, 2) ? ReduceOp::Identity : ReduceOp::Add;
                V a = { tg, i, m }; a.insert(a.end(), va.begin(), va.end()); ReduceMode mo = (ReduceMode) g.below(4);
                call("spack", a, { (long long) c, (long long) op }, [&] { return V{ jit_var_scatter_packet(c, tg, va.data(), i, m, op, mo) }; }); break; }
            case 23: case 24: { // atomics that return the previous value; the target reference is consumed and replaced
                int o = g.below(3); T tt = o == 0 && !wrong() ? T::UInt32 : (t == T::Bool ? T::UInt32 : t); if (t2 == T::Bool) t2 = tt; const H *h = find([&](const H &x) { return !x.z && x.t == tt; }); if (!h) { fresh(tt, n, false); break; }
                size_t k2 = (size_t) (h - hs.data()); uint32_t tg = h->id, old = tg, v = get(wrong() ? t2 : tt, n, false, false), w = get(tt, n, false, false), i = get(T::UInt32, wrong() ? rsz() : n, true, false), m = get(T::Bool, wrong() ? rsz() : n, false, false);
                if (!o) call("inc", { old, i, m }, {}, [&] { uint32_t r = jit_var_scatter_inc(&tg, i, m); hs[k2].id = tg; done(r, 0); own(r); return V{ r, tg }; }, false);
                else if (o == 1) call("exch", { old, v, i, m }, {}, [&] { uint32_t r = jit_var_scatter_exch(&tg, v, i, m); hs[k2].id = tg; done(r, 0); own(r); return V{ r, tg }; }, false);
                else call("cas", { old, w, v, i, m }, {}, [&] { uint32_t o1 = 0, o2 = 0; jit_var_scatter_cas(&tg, w, v, i, m, &o1, &o2); hs[k2].id = tg; done(o1, o2); own(o1); own(o2); return V{ o1, tg, o2 }; }, false);
                hs[k2].t = jit_var_type(hs[k2].id); hs[k2].n = jit_var_size(hs[k2].id); break; }
            case 25: { uint32_t a = get(t, n); bool o = g.chance(1, 2); call(o ? "copy" : "copyo", { a }, {}, [&] { return V{ o ? jit_var_copy(a) : jit_var_copy_opaque(a) }; }); break; }
            case 26: { uint32_t a = get(t, n, false, false); size_t m = wrong() ? 1 + g.below(40) : jit_var_size(a); if (jit_var_size(a) == 1 && g.chance(1, 2)) m = n; call("resize", { a }, { (long long) m }, [&] { return V{ jit_var_resize(a, m) }; });
                for (H &h : hs) if (h.id == a) h.n = jit_var_size(a); // scalar variables without other users are resized in place
                break; }
            case 27: { uint32_t a = get(t, n); size_t m = g.below((uint32_t) n + (wrong() ? 10 : 1)); call("shrink", { a }, { (long long) m }, [&] { return V{ jit_var_shrink(a, m) }; }); break; }
            case 28: { uint32_t a = get(t, n, false, false); size_t i = g.below((uint32_t) jit_var_size(a) + (wrong() ? 5 : 0)); call("read", { a }, { (long long) i }, [&] { uint64_t v; jit_var_read(a, i, &v); return V(); }); break; }
            case 29: case 30: { const H *h = find([&](const H &x) { return !x.z; }); if (!h) break; uint32_t a = h->id; size_t i = g.below((uint32_t) h->n + (wrong() ? 5 : 0)); uint64_t v = 0; // consumes nothing, returns a new reference
                call("write", { a }, { (long long) i }, [&] { return V{ jit_var_write(a, i, &v) }; }); break; }
            case 31: { uint32_t a = get(g.chance(bad, 200) ? t : T::Bool, n); int o = g.below(5); static const char *nm[] = { "any", "all", "anya", "alla", "compress" };
                call(nm[o], { a }, {}, [&] { if (o == 0) { jit_var_any(a); return V(); } if (o == 1) { jit_var_all(a); return V(); } return V{ o == 2 ? jit_var_any_async(L, a) : o == 3 ? jit_var_all_async(L, a) : jit_var_compress(a) }; }); break; }
            case 32: { uint32_t a = get(nt, n); ReduceOp op = (ReduceOp) (1 + g.below(wrong() ? 6 : 4)); T vt = wrong() ? T::Void : wrong() ? t2 : nt; call("reduce", { a }, { (long long) op, (long long) vt }, [&] { return V{ jit_var_reduce(L, vt, op, a) }; }); break; }
            case 33: { uint32_t a = get(nt, n); uint32_t b = g.below(6); int sy = (int) g.below(3) - 1; if (wrong()) sy = 7; call("breduce", { a }, { (long long) b, sy }, [&] { return V{ jit_var_block_reduce(ReduceOp::Add, a, b, sy) }; }); break; }
            case 34: { uint32_t a = get(nt, n, false, false), b = get(wrong() ? (t2 == T::Bool ? nt : t2) : nt, n2); call("dot", { a, b }, {}, [&] { return V{ jit_var_reduce_dot(a, b) }; }); break; }
            case 35: { uint32_t a = get(t, n); uint32_t c = 1 + g.below(4); bool o = g.chance(1, 2); call("rep", { a }, { (long long) c }, [&] { return V{ o ? jit_var_tile(a, c) : jit_var_repeat(a, c, 0) }; }); break; }
            case 36: { uint32_t a = get(t, n); if (a) call("un", { a }, {}, [&] { return V{ jit_var_reverse(a) }; }); break; }
            case 37: { uint32_t a = get(nt, n, false, false); call("un", { a }, {}, [&] { return V{ jit_var_block_prefix_reduce(ReduceOp::Add, a, (uint32_t) jit_var_size(a), g.below(2), g.below(2)) }; }); break; }
            case 38: case 50: { uint32_t a = get(t, n); int o = g.below(4); if (g.chance(1, 2)) { const H *h = find([](const H &x) { return jit_var_state(x.id) == VarState::Dirty; }); if (h) a = h->id; }
                if (o == 0) call("sched", { a }, {}, [&] { rv_out = jit_var_schedule(a); return V(); });
                else if (o == 1) call("evalv", { a }, {}, [&] { rv_out = jit_var_eval(a); return V(); });
                else if (o == 2) { call("schedf", { a }, {}, [&] { return V{ jit_var_schedule_force(a, &rv_out) }; }); }
                else call("data", { a }, {}, [&] { void *p; return V{ jit_var_data(a, &p) }; });
                break; }
            case 39: call("eval", {}, {}, [&] { jit_eval(); return V(); }); break;
            case 40: { uint32_t a = get(t, n, false, false); const char *s = wrong() ? (g.chance(1, 2) ? "a/b" : "a\nb") : "lbl"; call("label", { a }, { strcmp(s, "lbl") == 0 }, [&] { return V{ jit_var_set_label(a, 1, s) }; }); break; }
            case 41: { // callbacks are attached to variables that nothing else refers to
                uint32_t a = get(nt, n, false, false), b = get(nt, n, false, false); V r = call("bin", { a, b }, {}, [&] { return V{ jit_var_add(a, b) }; }); if (r.empty() || !r[0]) break; uint32_t v = r[0];
                r = call("copy", { v }, {}, [&] { return V{ jit_var_copy(v) }; }); if (r.empty()) break; v = r[0];
                CbD *c = new CbD{ ++tag, 0 }; size_t own_n = hs.size(); (void) own_n;
                uint32_t dropped = 0; if (g.chance(1, 3)) { size_t q = g.below((uint32_t) hs.size() - 1); dropped = hs[q].id; if (dropped != v) { c->drop = dropped; hs.erase(hs.begin() + q); } else dropped = 0; }
                call("cb", { v, dropped }, { tag }, [&] { jit_var_set_callback(v, on_cb, c); return V(); }); break; }
            case 42: { int o = g.below(4);
                if (o == 0 && masks.size() < 3) { uint32_t m = get(T::Bool, n, false, false);
                    if (jit_var_state(m) != VarState::Literal && jit_var_state(m) != VarState::Evaluated) { // (computed masks must ignore the padding)
                        size_t q = jit_var_size(m); V r = call("mapply", { m }, { (long long) q }, [&] { return V{ jit_var_mask_apply(m, (uint32_t) q) }; }); if (r.empty()) break; m = r[0]; }
                    masks.push_back(m); call("mpush", { m }, {}, [&] { jit_var_mask_push(L, m); return V(); }); }
                else if (o == 1 && (!masks.empty() || wrong())) { if (!masks.empty()) masks.pop_back(); call("mpop", {}, {}, [&] { jit_var_mask_pop(L); return V(); }); }
                else if (o == 2) call("mpeek", {}, {}, [&] { return V{ jit_var_mask_peek(L) }; });
                else { uint32_t m = get(wrong() ? t : T::Bool, n, false, false); size_t q = wrong() ? n2 : jit_var_size(m); call("mapply", { m }, { (long long) q }, [&] { return V{ jit_var_mask_apply(m, (uint32_t) q) }; }); }
                break; }
            case 43: { if (hs.empty()) break; uint32_t a = hs[g.below((uint32_t) hs.size())].id; H h = *find([&](const H &x) { return x.id == a; }); call("inc_ref", { a }, {}, [&] { jit_var_inc_ref(a); hs.push_back(h); return V{ a }; }, false); break; }
            case 46: case 47: symbolic_abort(); break;
            case 48: { // dot products of evaluated arrays
                T ft = g.chance(3, 4) ? T::Float32 : T::Float64; uint32_t a = fresh(ft, n, false, 2), b = fresh(wrong() ? T::Float64 : ft, g.chance(1, 3) ? 1 : wrong() ? rsz() : n2, false, g.below(4)); if (g.chance(1, 2)) std::swap(a, b); call("dot", { a, b }, {}, [&] { return V{ jit_var_reduce_dot(a, b) }; }); break; }
            case 49: { // scalars that may be resized in place
                uint32_t a = get(nt, 1, false, false), b = get(nt, 1, false, false); V r = call("bin", { a, b }, {}, [&] { return V{ jit_var_add(a, b) }; }); if (r.empty()) break; a = r[0];
                if (g.chance(1, 3)) call("un", { a }, {}, [&] { return V{ jit_var_neg(a) }; });
                call("resize", { a }, { (long long) n }, [&] { return V{ jit_var_resize(a, n) }; }); for (H &h : hs) if (h.id == a) h.n = jit_var_size(a);
                break; }
            case 51: case 52: { // views
                uint32_t a = fresh(nt, 12, false, 2); V r = call("shrink", { a }, { 8 }, [&] { return V{ jit_var_shrink(a, 8) }; }); if (r.empty()) break; uint32_t b = r[0];
                if (g.chance(1, 3)) { r = call("shrink", { b }, { 4 }, [&] { return V{ jit_var_shrink(b, 4) }; }); if (g.chance(1, 2)) { b = r[0]; } }
                uint32_t tg = g.chance(1, 2) ? a : b; uint64_t v = 0;
                if (g.chance(1, 2)) call("write", { tg }, { 1 }, [&] { return V{ jit_var_write(tg, 1, &v) }; });
                else { uint32_t w = get(nt, n, false, false), i = get(T::UInt32, n, true, false), m = fresh(T::Bool, 1, false); call("scatter", { tg, w, i, m }, { 0 }, [&] { return V{ jit_var_scatter(tg, w, i, m, ReduceOp::Identity, ReduceMode::Auto) }; }); }
                break; }
            case 44: if (g.chance(1, 2)) symbolic_abort(); else { while (hs.size() > 5) drop(g.below((uint32_t) hs.size())); } break;
            case 45: if (!hs.empty()) drop(g.below((uint32_t) hs.size())); break;
        }
    }
    (void) only_new; J().str("f", "end").emit(); fclose(out_f); out_f = nullptr;
    return 0;
}
