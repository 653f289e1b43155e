// Harness-side interface of the symbolic executor.
// The same harness source is compiled twice: instrumented (symbolic inputs) and
// natively with g++ against replay.cpp (concrete inputs of a counterexample).
#pragma once
#include <cmath>
#include <cstdint>
#include <exception>
#include <initializer_list>

extern "C" {
float __sx_api_real(const char* name, float lo, float hi);
float __sx_api_lattice(const char* name, int lo, int hi, int scale);
float __sx_api_fp(const char* name);
int __sx_api_int(const char* name, int lo, int hi);
bool __sx_api_bool(const char* name);
int __sx_choose(const char* name, int n);
void __sx_api_assume(bool c);
void __sx_api_check(const char* label, bool c);
void __sx_api_eq(const char* label, float a, float b, float tol);
void __sx_api_observe(const char* name, float v);
void __sx_fail(const char* label);
void __sx_done();
int __sx_tier();
int __sx_symbolic();
void __sx_symbolize(void* p, uint64_t n, const char* name);
void __sx_register(const char* name, const char* opts, void (*fn)());
}

namespace sx
{
// arbitrary real in [lo, hi]
inline float real(const char* n, float lo, float hi) { return __sx_api_real(n, lo, hi); }
// arbitrary k * 2^-scale, k integer in [lo, hi]
inline float lat(const char* n, int lo, int hi, int scale = 0) { return __sx_api_lattice(n, lo, hi, scale); }
// arbitrary IEEE single, NaN and infinities included
inline float fp(const char* n) { return __sx_api_fp(n); }
inline int integer(const char* n, int lo, int hi) { return __sx_api_int(n, lo, hi); }
inline bool boolean(const char* n) { return __sx_api_bool(n); }
// one path per value 0..n-1
inline int choose(const char* n, int k) { return __sx_choose(n, k); }
inline void assume(bool c) { __sx_api_assume(c); }
inline void check(const char* l, bool c) { __sx_api_check(l, c); }
// equality of numbers; on a native replay: up to tol * (1 + |a| + |b|)
inline void eq(const char* l, float a, float b, float tol = 1e-3f) { __sx_api_eq(l, a, b, tol); }
inline void fail(const char* l) { __sx_fail(l); }
// value compared between the symbolic run and a native run of the same path
inline void observe(const char* n, float v) { __sx_api_observe(n, v); }
inline int tier() { return __sx_tier(); }
inline bool symbolic() { return __sx_symbolic(); }
inline void done() { __sx_done(); }

struct Register
{
    Register(const char* n, const char* o, void (*f)()) { __sx_register(n, o, f); }
};
} // namespace sx

#define SX_HARNESS(name, opts)                                                                                         \
    extern "C" void sx_h_##name();                                                                                     \
    static sx::Register sx_reg_##name{#name, opts, sx_h_##name};                                                       \
    extern "C" __attribute__((noinline)) void sx_h_##name()
