#pragma once
#include <drjit-core/jit.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <stdexcept>
#include <csignal>
#include <unistd.h>
static const JitBackend B = JitBackend::LLVM;
static int failures = 0;
static void start() { jit_set_log_level_stderr(LogLevel::Error); jit_init(1u << (uint32_t) B); if (!jit_has_backend(B)) { printf("no LLVM backend\n"); exit(77); } }
template <typename T> static uint32_t mem(VarType t, const std::vector<T> &v) { return jit_var_mem_copy(B, t, v.data(), v.size(), 1); }
template <typename T> static uint32_t lit(VarType t, T v, size_t n = 1) { return jit_var_literal(B, t, &v, n, 0); }
static uint32_t u32(std::vector<uint32_t> v) { return mem<uint32_t>(VarType::UInt32, v); }
static uint32_t f32(std::vector<float> v) { return mem<float>(VarType::Float32, v); }
static uint32_t b1(std::vector<uint8_t> v) { return mem<uint8_t>(VarType::Bool, v); }
static uint32_t yes() { return lit<bool>(VarType::Bool, true); }
template <typename T> static std::vector<T> get(uint32_t i) { void *p; uint32_t d = jit_var_data(i, &p); jit_sync_thread(); std::vector<T> r((T *) p, (T *) p + jit_var_size(i)); jit_var_dec_ref(d); return r; }
template <typename T> static void expect(const char *what, const std::vector<T> &got, const std::vector<T> &want) {
    bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i] == want[i] || (got[i] != got[i] && want[i] != want[i]);
    if (ok) return; ++failures; printf("FAILED %s: got", what); for (auto x : got) printf(" %g", (double) x); printf(" want"); for (auto x : want) printf(" %g", (double) x); printf("\n");
}
static int done() { fflush(stdout); _exit(failures ? 1 : 0); }
