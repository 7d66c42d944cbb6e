// Shared helpers of the conformance drivers: RNG, JSON event writer, crash
// reporting.  Drivers only use the public API of drjit-core.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <drjit-core/jit.h>

typedef JitBackend Backend;
static const JitBackend L = JitBackend::LLVM;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { s = next() ^ (seed << 32); s = next(); } // hashed: the streams of nearby seeds must not overlap
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t) (next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t) v.size())]; }
};

static FILE *out_f = nullptr;

static void on_crash(int sig) {
    // Async-signal-safe enough for a dying test process
    char buf[64];
    int n = snprintf(buf, sizeof(buf), "\n{\"e\":\"crash\",\"sig\":%d}\n", sig);
    if (out_f) {
        fflush(out_f);
        (void) !write(fileno(out_f), buf, n);
    }
    _exit(100 + sig);
}

static void drv_open(const char *path) {
    out_f = fopen(path, "w");
    if (!out_f) { perror(path); exit(2); }
    static char obuf[1 << 16];
    setvbuf(out_f, obuf, _IOFBF, sizeof(obuf));
    for (int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL })
        signal(s, on_crash);
}

// Append-only JSON builder
struct J {
    std::string s;
    bool first = true;
    void sep() { if (!first) s += ','; first = false; }
    J &key(const char *k) { sep(); s += '"'; s += k; s += "\":"; return *this; }
    J &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
    J &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    J &str(const char *k, const std::string &v) {
        key(k); s += '"';
        for (char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", (unsigned char) c); s += t; }
            else s += c;
        }
        s += '"'; return *this;
    }
    J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
    template <typename T> J &arr(const char *k, const std::vector<T> &v) {
        key(k); s += '[';
        for (size_t n = 0; n < v.size(); ++n) { if (n) s += ','; s += std::to_string((long long) v[n]); }
        s += ']'; return *this;
    }
    J &bytes(const char *k, const void *p, size_t n) {
        key(k); s += '['; const uint8_t *q = (const uint8_t *) p;
        for (size_t j = 0; j < n; ++j) { if (j) s += ','; s += std::to_string((int) q[j]); }
        s += ']'; return *this;
    }
    void emit() { fputc('{', out_f); fputs(s.c_str(), out_f); fputs("}\n", out_f); }
};

static inline std::string jbytes(const void *p, size_t n) {
    std::string s = "["; const uint8_t *q = (const uint8_t *) p;
    for (size_t j = 0; j < n; ++j) { if (j) s += ','; s += std::to_string((int) q[j]); }
    return s + "]";
}

// LLVM 18 miscompiles masked half precision comparisons against a memory
// operand on machines with AVX512-FP16 (the operands of VCMPPH are swapped
// without adapting the predicate).  Drivers that compare half precision values
// within larger expressions generate code without this instruction set.
static void drv_no_fp16() {
    std::string cpu = jit_llvm_target_cpu(), f = jit_llvm_target_features() ? jit_llvm_target_features() : "";
    size_t p = f.find("+avx512fp16"); if (p == std::string::npos) return;
    f[p] = '-'; jit_llvm_set_target(cpu.c_str(), f.c_str(), jit_llvm_vector_width());
}

static void drv_init() {
    jit_set_log_level_stderr(getenv("DRV_LOG") ? (LogLevel) atoi(getenv("DRV_LOG")) : LogLevel::Error);
    jit_init(1u << (uint32_t) L);
    if (!jit_has_backend(L)) {
        fprintf(stderr, "driver: the LLVM backend is unavailable\n");
        exit(3);
    }
}
