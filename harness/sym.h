// Harness interface. The same harness source is (1) compiled to bitcode and executed symbolically by ksym,
// (2) compiled natively and linked with replay_rt.cpp to replay a counterexample on the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <type_traits>
extern "C"
{
    uint64_t __sym_int(const char* name, int bits);
    int64_t __sym_intr(const char* name, int bits, int64_t lo, int64_t hi); // signed integer in [lo,hi], usable in __sym_close
    float __sym_f32(const char* name);
    double __sym_f64(const char* name);
    float __sym_f32r(const char* name, double lo, double hi);
    double __sym_f64r(const char* name, double lo, double hi);
    void __sym_bytes(void* p, uint64_t n, const char* name);
    void __sym_assume(bool c);
    void __sym_assert(bool c, const char* msg);
    // ok must hold unless known; `known` describes exactly the inputs of a recorded finding
    void __sym_assert_known(bool ok, bool known, const char* id, const char* msg);
    void __sym_close(double a, double ref, double tol, const char* msg);
    // |a - ref| <= abstol + reltol*|ref|, decided by adaptive Taylor models; libm calls in ref stand for the exact functions
    void __sym_close_fn(double a, double ref, double abstol, double reltol, const char* msg);
    void __sym_close_lin(double a, const double* vals, const double* coefs, uint64_t n, double tol, const char* msg);
    double __sym_xadd(double a, double b);
    double __sym_xmul(double a, double b);
    uint64_t __sym_fork(uint64_t v);
    void __sym_fuel(uint64_t steps, const char* msg);
    uint64_t __sym_heap_live();
    int __sym_is_engine();
    int __sym_readable(const void* p, uint64_t n);
    void __sym_observe(uint64_t v);
    void __sym_observe_f(double v);
}
#ifdef KSYM_NATIVE
extern "C" void __sym_register(const char* name, void (*fn)());
#define ENTRY(name)                                                                                                    \
    extern "C" void check_##name();                                                                                    \
    namespace                                                                                                          \
    {                                                                                                                  \
    struct reg_##name { reg_##name() { __sym_register("check_" #name, &check_##name); } } reg_inst_##name;             \
    }                                                                                                                  \
    extern "C" __attribute__((noinline, used)) void check_##name()
#else
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void check_##name()
#endif

// thorough tier compiles with -DTHOROUGH=1
#ifndef THOROUGH
#define THOROUGH 0
#endif

namespace sym
{
template <typename T>
inline T any(const char* name)
{
    if constexpr (std::is_same_v<T, float>) return __sym_f32(name);
    else if constexpr (std::is_same_v<T, double>) return __sym_f64(name);
    else if constexpr (std::is_same_v<T, bool>) return (__sym_int(name, 8) & 1) != 0;
    else return (T)__sym_int(name, sizeof(T) * 8);
}
template <typename T>
inline T ranged(const char* name, double lo, double hi)
{
    if constexpr (std::is_same_v<T, float>) return __sym_f32r(name, lo, hi);
    else return __sym_f64r(name, lo, hi);
}
// integer in [lo,hi], still symbolic
inline uint64_t range(const char* name, uint64_t lo, uint64_t hi)
{
    uint64_t v = __sym_int(name, 64);
    __sym_assume(v >= lo && v <= hi);
    return v;
}
// integer in [lo,hi], explored value by value (one path each)
inline uint64_t pick(const char* name, uint64_t lo, uint64_t hi)
{
    uint64_t v = __sym_int(name, 16);
    __sym_assume(v >= lo && v <= hi);
    return __sym_fork(v);
}
inline void assume(bool c) { __sym_assume(c); }
inline void check(bool c, const char* msg) { __sym_assert(c, msg); }
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline bool isnan_(float f) { return (bits(f) & 0x7fffffffu) > 0x7f800000u; }
inline bool isnan_(double f) { return (bits(f) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
// identical value: same bits, or both NaN
template <typename T>
inline bool same(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>) return (bits(a) == bits(b)) | (isnan_(a) & isnan_(b));
    else return a == b;
}
// identical value, zeros of either sign are not distinguished
template <typename T>
inline bool samez(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>) return (bits(a) == bits(b)) | (isnan_(a) & isnan_(b)) | (((bits(a) | bits(b)) << 1) == 0);
    else return a == b;
}
} // namespace sym
