// Shared by trig.cpp, explog.cpp, special.cpp: claims |f(x) - reference(x)| <= at + rt*|reference| for every x in a box.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dsp/units.hpp>
#include <kfr/math.hpp>
#include <kfr/simd.hpp>
using namespace kfr;
#define X ((double)x)
#define Y ((double)y)
#define ACC(name, T, lo, hi, at, rt, ref) \
    ENTRY(name##_##T) { T x = sym::ranged<T>("x", lo, hi); __sym_close_fn((double)kfr::name(x), ref, at, rt, #name); }
#define ACCN(ent, expr, T, lo, hi, at, rt, ref) \
    ENTRY(ent##_##T) { T x = sym::ranged<T>("x", lo, hi); __sym_close_fn((double)(expr), ref, at, rt, #ent); }
#define ACC2(ent, expr, T, lo, hi, lo2, hi2, at, rt, ref) \
    ENTRY(ent##_##T) { T x = sym::ranged<T>("x", lo, hi); T y = sym::ranged<T>("y", lo2, hi2); __sym_close_fn((double)(expr), ref, at, rt, #ent); }
static const double deg = 0.017453292519943295769;
// both element types: tolerance for float, for double
#define BOTH(name, lo, hi, a32, r32, a64, r64, ref) ACC(name, f32, lo, hi, a32, r32, ref) ACC(name, f64, lo, hi, a64, r64, ref)
#define BOTHN(ent, expr, lo, hi, a32, r32, a64, r64, ref) \
    namespace e_##ent##32 { using T = f32; ACCN(ent, expr, f32, lo, hi, a32, r32, ref) } namespace e_##ent##64 { using T = f64; ACCN(ent, expr, f64, lo, hi, a64, r64, ref) }
#define BOTH2(ent, expr, lo, hi, lo2, hi2, a32, r32, a64, r64, ref) \
    namespace e_##ent##32 { using T = f32; ACC2(ent, expr, f32, lo, hi, lo2, hi2, a32, r32, ref) } namespace e_##ent##64 { using T = f64; ACC2(ent, expr, f64, lo, hi, lo2, hi2, a64, r64, ref) }
// two outputs (complex)
#define BOTHC(ent, expr, lo, hi, lo2, hi2, a32, r32, a64, r64, refre, refim) \
    BOTH2(ent##_re, (expr).real(), lo, hi, lo2, hi2, a32, r32, a64, r64, refre) BOTH2(ent##_im, (expr).imag(), lo, hi, lo2, hi2, a32, r32, a64, r64, refim)
#define C32(ent, expr, lo, hi, lo2, hi2, at, rt, refre, refim) \
    namespace c_##ent##32 { using T = f32; ACC2(ent##_re, (expr).real(), f32, lo, hi, lo2, hi2, at, rt, refre) ACC2(ent##_im, (expr).imag(), f32, lo, hi, lo2, hi2, at, rt, refim) }
#define C64(ent, expr, lo, hi, lo2, hi2, at, rt, refre, refim) \
    namespace c_##ent##64 { using T = f64; ACC2(ent##_re, (expr).real(), f64, lo, hi, lo2, hi2, at, rt, refre) ACC2(ent##_im, (expr).imag(), f64, lo, hi, lo2, hi2, at, rt, refim) }
template <typename T> inline complex<T> cx(T re, T im) { return complex<T>(re, im); }
template <typename T> inline T inf_() { return std::numeric_limits<T>::infinity(); }
template <typename T> inline T nan_() { return std::numeric_limits<T>::quiet_NaN(); }
// every lane of a vector result equals the scalar result for that element
template <typename T, size_t N, typename Fn>
inline void lanes(Fn fn, vec<T, N> v, const char* msg)
{
    auto r = fn(v);
    for (size_t i = 0; i < N; i++) { T a = r[i], b = fn(T(v[i])); sym::check(sym::samez(a, b), msg); }
}
