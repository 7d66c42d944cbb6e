// Random histories of the pointer registry.  Judged by spec/RegistryTrace.tla.
//   drv_registry OUT SEED NSTEPS NPTR
#include "drv.h"

static char pool[65536];
static void *addr(int p) { return p ? (void *) (pool + 16 * (size_t) p) : nullptr; }
static int num(const void *p) { return p ? (int) (((const char *) p - pool) / 16) : 0; }

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    Rng g(strtoull(argv[2], nullptr, 10)); int steps = atoi(argv[3]), np = argc > 4 ? atoi(argv[4]) : 8;
    drv_open(argv[1]); drv_init();
    // Two copies of every string: domains are identified by content
    static char vs[2][2][16], ds[2][3][16];
    for (int c = 0; c < 2; ++c) { for (int v = 0; v < 2; ++v) snprintf(vs[c][v], 16, "var%i", v); for (int d = 0; d < 3; ++d) snprintf(ds[c][d], 16, d == 2 ? "var0" : "Dom%i", d); }
    int phase = 0;
    for (int k = 0; k < steps; ++k) {
        if (k % 97 == 0) phase = g.below(3);
        int d = 1 + (g.chance(1, 2) ? 0 : g.below(6)), p = 1 + g.below(np); if (g.chance(1, 40)) p = 0;
        const char *v = vs[g.below(2)][(d - 1) / 3], *n = ds[g.below(2)][(d - 1) % 3];
        uint32_t w = g.below(100); J j;
        auto guard = [&](auto &&f) -> long long { try { return f(); } catch (const std::exception &) { return -1; } };
        uint32_t a = phase == 0 ? 50 : phase == 1 ? 30 : 12, b = phase == 0 ? 60 : 62;
        if (w < a) j.str("e", "put").i("d", d).i("p", p).i("r", guard([&] { return (long long) jit_registry_put(v, n, addr(p)); }));
        else if (w < b) { if (!p) p = 1; j.str("e", "remove").i("p", p).i("r", guard([&] { jit_registry_remove(addr(p)); return 0ll; })); }
        else if (w < 72) j.str("e", "id").i("p", p).i("r", guard([&] { return (long long) jit_registry_id(addr(p)); }));
        else if (w < 79) j.str("e", "bound").i("d", d).i("r", jit_registry_id_bound(v, n));
        else if (w < 90) { int k2 = g.below(jit_registry_id_bound(v, n) + 3); j.str("e", "ptr").i("d", d).i("k", k2).i("r", guard([&] { return (long long) num(jit_registry_ptr(v, n, k2)); })); }
        else if (w < 94) j.str("e", "peek").i("d", d).i("r", num(jit_registry_peek(v, n)));
        else if (w < 98) {
            std::vector<void *> t(jit_registry_id_bound(v, n) + 4, nullptr); std::vector<int> r; jit_registry_get_pointers(v, n, t.data());
            for (size_t q = 0; q + 4 < t.size(); ++q) r.push_back(num(t[q]));
            for (size_t q = t.size() - 4; q < t.size(); ++q) if (t[q]) r.push_back(num(t[q]));
            j.str("e", "all").i("d", d).arr("r", r);
        }
        else if (w < 99) { if (!g.chance(1, 3)) continue; jit_registry_clear(); j.str("e", "clear"); }
        else {
            if (!g.chance(1, 4)) continue;
            jit_shutdown(g.below(2)); jit_init(1u << (uint32_t) L); j.str("e", "shutdown");
        }
        j.emit();
    }
    J j; j.str("e", "end"); j.emit(); fclose(out_f); out_f = nullptr;
    return 0;
}
