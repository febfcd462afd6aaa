// Reductions of an expression give the mathematical value for every length; histograms count every element exactly once.
#include "sym.h"
#include <kfr/base.hpp>
using namespace kfr;
template <typename T> constexpr double unit() { return sizeof(subtype<T>) == 4 ? 5.9604644775390625e-8 : 1.1102230246251565e-16; }
template <typename T> static univector<T> in(T* a, size_t n)
{
    univector<T> v(n);
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (std::is_floating_point_v<T>) a[i] = sym::ranged<T>("x", -1, 1);
        else a[i] = sym::any<T>("x");
        v[i] = a[i];
    }
    return v;
}
// integers: exact modulo 2^bits
template <typename T> static __attribute__((noinline)) void ints(size_t lo, size_t hi)
{
    for (size_t n = lo; n <= hi; n++)
    {
        T* a = new T[n + 1]; T* b = new T[n + 1];
        univector<T> v = in<T>(a, n), w = in<T>(b, n);
        T s = 0;
        for (size_t i = 0; i < n; i++) s = T(s + a[i]);
        sym::check(sum(v) == s, "sum");
        s = 0;
        for (size_t i = 0; i < n; i++) s = T(s + T(a[i] ^ b[i]));
        sym::check(sum(v ^ w) == s, "sum of an expression");
        s = 0;
        for (size_t i = 0; i < n; i++) s = T(s + T(a[i] * b[i]));
        sym::check(dotproduct(v, w) == s, "dotproduct");
        s = 0;
        for (size_t i = 0; i < n; i++) s = T(s + T(a[i] * a[i]));
        sym::check(sumsqr(v) == s, "sumsqr");
        T x = 0; for (size_t i = 0; i < n; i++) x ^= a[i];
        sym::check(reduce(v, fn::bitwisexor()) == x, "xor reduction");
        x = T(-1); for (size_t i = 0; i < n; i++) x &= a[i];
        sym::check(reduce(v, fn::bitwiseand()) == x, "and reduction");
        x = 0; for (size_t i = 0; i < n; i++) x |= a[i];
        sym::check(reduce(v, fn::bitwiseor()) == x, "or reduction");
        delete[] a; delete[] b;
    }
}
ENTRY(sum_u8) { ints<u8>(0, 37); }
ENTRY(sum_i16) { ints<i16>(0, 26); ints<i16>(63, 65); }
ENTRY(sum_i32) { ints<i32>(0, 26); ints<i32>(63, 65); }
ENTRY(sum_u32) { ints<u32>(0, 20); }
ENTRY(sum_i64) { ints<i64>(0, 18); }

// order statistics commute with monotone maps, so lengths above a few are decided over two-valued inputs
template <typename T> static __attribute__((noinline)) void extremes(size_t n)
{
    T* a = new T[n];
    for (size_t i = 0; i < n; i++) a[i] = sym::any<T>("x");
    if constexpr (std::is_floating_point_v<T>) for (size_t i = 0; i < n; i++) sym::assume(!sym::isnan_(a[i]));
    univector<T> v(n);
    for (size_t i = 0; i < n; i++) v[i] = a[i];
    T lo = minof(v), hi = maxof(v);
    bool okl = true, okh = true, inl = false, inh = false;
    for (size_t i = 0; i < n; i++) { okl &= lo <= a[i]; okh &= hi >= a[i]; inl |= lo == a[i]; inh |= hi == a[i]; }
    sym::check(okl & inl, "minof");
    sym::check(okh & inh, "maxof");
    delete[] a;
}
template <typename T> static __attribute__((noinline)) void abs_extremes(size_t n)
{
    T* a = new T[n];
    for (size_t i = 0; i < n; i++) a[i] = sym::any<T>("x");
    for (size_t i = 0; i < n; i++)
    {
        if constexpr (std::is_floating_point_v<T>) sym::assume(!sym::isnan_(a[i]));
        else if constexpr (std::is_signed_v<T>) sym::assume(a[i] != std::numeric_limits<T>::min());
    }
    univector<T> v(n);
    for (size_t i = 0; i < n; i++) v[i] = a[i];
    T lo = absminof(v), hi = absmaxof(v);
    bool okl = true, okh = true, inl = false, inh = false;
    for (size_t i = 0; i < n; i++)
    {
        T m = a[i];
        if constexpr (std::is_floating_point_v<T>) m = std::fabs(m);
        else if constexpr (std::is_signed_v<T>) { T s = T(m >> (sizeof(T) * 8 - 1)); m = T((m ^ s) - s); }
        okl &= lo <= m; okh &= hi >= m; inl |= lo == m; inh |= hi == m;
    }
    sym::check(okl & inl, "absminof");
    sym::check(okh & inh, "absmaxof");
    delete[] a;
}
template <typename T> static __attribute__((noinline)) void two_valued(size_t n, T p, T q)
{
    univector<T> v(n);
    bool any = false, all = true;
    for (size_t i = 0; i < n; i++)
    {
        bool b = __sym_int("b", 8) & 1;
        any |= b; all &= b;
        v[i] = b ? q : p;
    }
    // p < q
    T ap = p < T(0) ? T(0) - p : p, aq = q < T(0) ? T(0) - q : q;
    sym::check(minof(v) == (all ? q : p), "minof of a long sequence");
    sym::check(maxof(v) == (any ? q : p), "maxof of a long sequence");
    T m0 = ap < aq ? ap : aq, m1 = ap < aq ? aq : ap;   // magnitudes in order
    bool anylow = ap < aq ? !all : any, anyhigh = ap < aq ? any : !all;
    sym::check(absminof(v) == (anylow ? m0 : m1), "absminof of a long sequence");
    sym::check(absmaxof(v) == (anyhigh ? m1 : m0), "absmaxof of a long sequence");
}
template <typename T> static void ext(size_t N) { for (size_t n = 1; n <= N; n++) { extremes<T>(n); abs_extremes<T>(n); } }
ENTRY(minmax_u8) { ext<u8>(4); }
ENTRY(minmax_i8) { ext<i8>(4); }
ENTRY(minmax_i16) { ext<i16>(4); }
ENTRY(minmax_i32) { ext<i32>(3); }
ENTRY(minmax_i64) { ext<i64>(3); }
ENTRY(minmax_f32) { ext<f32>(3); }
ENTRY(minmax_f64) { ext<f64>(2); }
static const size_t LENS[] = { 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 35, 47, 50 };
template <typename T> static void longs(size_t N, T p, T q) { for (size_t n : LENS) if (n <= N) two_valued<T>(n, p, q); }
ENTRY(minmax_long_f32) { longs<f32>(50, -0.5f, 7.f); longs<f32>(20, -3.f, -2.f); }
ENTRY(minmax_long_f64) { longs<f64>(33, -3.0, -2.0); }
ENTRY(minmax_long_i32) { longs<i32>(50, -100, 3); longs<u32>(20, 0x7fffffff, 0x80000000); }
ENTRY(minmax_long_i64) { longs<i64>(20, INT64_MIN + 1, INT64_MAX - 1); }
ENTRY(minmax_long_i16) { longs<i16>(35, -32767, 32766); }
ENTRY(minmax_long_i8) { for (size_t n : { 31, 33, 50, 64, 65, 70 }) { two_valued<u8>(n, 254, 255); two_valued<i8>(n, -127, -126); } }

template <typename T> static __attribute__((noinline)) void floats(size_t lo, size_t hi)
{
    constexpr bool cx = is_complex<T>;
    using S = subtype<T>;
    for (size_t n = lo; n <= hi; n++)
    {
        double *x = new double[n + 1], *xi = new double[n + 1], *c = new double[n + 1];
        univector<T> v(n);
        for (size_t i = 0; i < n; i++)
        {
            S re = sym::ranged<S>("x", -1, 1), im = 0;
            if constexpr (cx) { im = sym::ranged<S>("xi", -1, 1); v[i] = T(re, im); }
            else v[i] = re;
            x[i] = re; xi[i] = im;
        }
        double tol = 4 * unit<T>() * (n + 4) * n + 1e-300;
        T s = sum(v), m = mean(v), e = sum(v * S(2) - T(S(0.25)));
        for (int part = 0; part < (cx ? 2 : 1); part++)
        {
            auto get = [&](T z) -> double { if constexpr (cx) return part ? z.imag() : z.real(); else return z; };
            const double* xs = part ? xi : x;
            for (size_t i = 0; i < n; i++) c[i] = 1;
            __sym_close_lin(get(s), xs, c, n, tol, "sum");
            for (size_t i = 0; i < n; i++) c[i] = 1.0 / n;
            if (n) __sym_close_lin(get(m), xs, c, n, tol / n, "mean");
            for (size_t i = 0; i < n; i++) c[i] = 2;
            __sym_close_lin(get(e) + (part ? 0 : 0.25 * n), xs, c, n, 4 * tol, "sum of an expression");
        }
        delete[] x; delete[] xi; delete[] c;
    }
}
ENTRY(sum_f32) { floats<f32>(0, 35); floats<f32>(48, 50); }
ENTRY(sum_f64) { floats<f64>(0, 26); }
ENTRY(sum_c32) { floats<complex<f32>>(0, 18); }
ENTRY(sum_c64) { floats<complex<f64>>(0, 10); }
// products of the signal: each term is visible through one non-zero element at a time, plus short fully symbolic ones
template <typename T> static __attribute__((noinline)) void quad(size_t n)
{
    T* a = new T[n]; T* b = new T[n];
    univector<T> v = in<T>(a, n), w = in<T>(b, n);
    double d = 0, q = 0;
    for (size_t i = 0; i < n; i++) { d = __sym_xadd(d, __sym_xmul(a[i], b[i])); q = __sym_xadd(q, __sym_xmul(a[i], a[i])); }
    double tol = 4 * unit<T>() * (n + 2) * n;
    __sym_close(dotproduct(v, w), d, tol, "dotproduct");
    __sym_close(sumsqr(v), q, tol, "sumsqr");
    T r = rms(v);
    __sym_close(__sym_xmul(__sym_xmul(r, r), (double)n), q, 4 * tol, "rms squared");
    __sym_close(r, 0.5, 0.5 + tol, "rms is in [0,1]");
    delete[] a; delete[] b;
}
ENTRY(quadratic_f32) { for (size_t n : { 1, 2, 3, 4, 5 }) quad<f32>(n); }
ENTRY(quadratic_f64) { for (size_t n : { 1, 2, 3, 4 }) quad<f64>(n); }
template <typename T> static __attribute__((noinline)) void lin(size_t n)
{
    // constant second operand: linear in the first
    double *x = new double[n], *c = new double[n];
    univector<T> v(n), w(n);
    for (size_t i = 0; i < n; i++) { x[i] = sym::ranged<T>("x", -1, 1); v[i] = (T)x[i]; w[i] = T(int(i * 7 % 13) - 6) / 8; c[i] = w[i]; }
    __sym_close_lin(dotproduct(v, w), x, c, n, 4 * unit<T>() * (n + 2) * n, "dotproduct");
    delete[] x; delete[] c;
}
ENTRY(dot_f32) { for (size_t n = 1; n <= 50; n++) lin<f32>(n); }
ENTRY(dot_f64) { for (size_t n = 1; n <= 26; n++) lin<f64>(n); }
template <typename T> static void rms_known(size_t n, size_t k)
{
    // one symbolic element among constants of known square sum
    univector<T> v(n);
    double q = 0;
    for (size_t i = 0; i < n; i++) { v[i] = T(int(i % 5) + 1) / 4; if (i != k) q += double(v[i]) * double(v[i]); }
    T x = sym::ranged<T>("x", -1, 1);
    v[k] = x;
    double ref = __sym_xadd(q, __sym_xmul(x, x));
    T s = sumsqr(v), r = rms(v);
    double tol = 16 * unit<T>() * (n + 2) * n;
    __sym_close(s, ref, tol, "sumsqr");
    __sym_close(__sym_xmul(__sym_xmul(r, r), (double)n), ref, 4 * tol, "rms squared");
    __sym_close(r, 1, 1 + tol, "rms is in [0,2]");
    T p = 1;
    univector<T> u(n);
    for (size_t i = 0; i < n; i++) { u[i] = i % 3 == 1 ? T(-0.5) : i % 3 == 2 ? T(2) : T(1); if (i != k) p *= u[i]; }
    u[k] = x;
    __sym_close(product(u), __sym_xmul(p, x), 1e-5, "product");
}
ENTRY(rms_f32) { for (size_t n : { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 19 }) for (size_t k = 0; k < n; k++) rms_known<f32>(n, k); }
ENTRY(rms_f64) { for (size_t n : { 1, 2, 3, 4, 5, 7, 8, 9, 11 }) for (size_t k = 0; k < n; k++) rms_known<f64>(n, k); }
template <typename T> static void prod(size_t n)
{
    T* a = new T[n];
    univector<T> v = in<T>(a, n);
    T p = 1;
    for (size_t i = 0; i < n; i++) p = T(p * a[i]);
    sym::check(product(v) == p, "product");
    delete[] a;
}
ENTRY(product_int) { prod<u8>(1); prod<u8>(2); prod<i32>(1); prod<i32>(2); prod<u8>(3); }

// histogram: one symbolic value (or two) through the scalar and vector interfaces
template <typename T, size_t Bins> static __attribute__((noinline)) void hist_int()
{
    univector<T> v(3);
    T x = sym::any<T>("x"), y = sym::any<T>("y");
    v[0] = x; v[1] = y; v[2] = T(0);
    auto h = histogram<Bins>(v);
    auto g = histogram(v, Bins);
    auto cnt = [&](auto f) { return uint32_t(f(x)) + uint32_t(f(y)) + uint32_t(f(T(0))); };
    sym::check((h.total() == 3) & (g.total() == 3) & (h.size() == Bins) & (g.size() == Bins), "total and size");
    auto below = cnt([](T a) { return a < T(0); }), above = cnt([](T a) { return (a >= T(0)) & (uint64_t(a) >= Bins); });
    sym::check((h.below() == below) & (g.below() == below), "count below");
    sym::check((h.above() == above) & (g.above() == above), "count above");
    for (size_t b = 0; b < Bins; b++)
    {
        auto c = cnt([b](T a) { return (a >= T(0)) & (uint64_t(a) == b); });
        sym::check((h[b] == c) & (g[b] == c), "count of a bin");
    }
}
ENTRY(histogram_i8) { hist_int<i8, 4>(); hist_int<i8, 7>(); }
ENTRY(histogram_u8) { hist_int<u8, 4>(); }
ENTRY(histogram_i16) { hist_int<i16, 3>(); }
ENTRY(histogram_i32) { hist_int<i32, 5>(); }
ENTRY(histogram_u32) { hist_int<u32, 5>(); }
ENTRY(histogram_i64) { hist_int<i64, 2>(); }
ENTRY(histogram_manybins)
{
    // more bins than the element type has values
    univector<i8> v(1);
    i8 x = sym::any<i8>("x");
    v[0] = x;
    auto h = histogram(v, 300);
    sym::check((h.below() == (x < 0)) & (h.above() == 0) & (h.total() == 1), "nothing above the top bin");
    uint32_t n = 0;
    for (size_t i = 0; i < 300; i++) n += h[i];
    sym::check(n == (x >= 0), "counted once");
}
template <typename T, size_t Bins> static __attribute__((noinline)) void hist_float()
{
    T x = sym::any<T>("x");
    sym::assume((x >= T(-4)) & (x <= T(4)));
    univector<T> v(2);
    v[0] = x; v[1] = T(0.875);
    auto h = histogram<Bins>(v);
    sym::check((h.total() == 2) & (h.below() == (x < T(0))) & (h.above() == (x > T(1))), "values outside [0,1]");
    size_t q = Bins - 1;
    uint32_t n = 0;
    for (size_t b = 0; b < Bins; b++)
    {
        uint32_t c = h[b] - (b == q);
        n += c;
        // the bin centre nearest to the value
        bool in  = (x >= T(0)) & (x <= T(1)) & ((x * T(Bins) > T(b) - T(0.49)) | (b == 0)) & ((x * T(Bins) < T(b) + T(0.49)) | (b == Bins - 1));
        bool out = (x < T(0)) | (x > T(1)) | ((x * T(Bins) < T(b) - T(0.51)) & (b != 0)) | ((x * T(Bins) > T(b) + T(0.51)) & (b != Bins - 1))
                 | ((b == 0) & (x * T(Bins) > T(0.51))) | ((b == Bins - 1) & (x * T(Bins) < T(b) - T(0.51)));
        sym::check((c <= 1) & (!in | (c == 1)) & (!out | (c == 0)), "count of a bin");
    }
    sym::check(n + h.below() + h.above() == 1, "counted once");
}
ENTRY(histogram_f32) { hist_float<f32, 4>(); }
ENTRY(histogram_f64) { hist_float<f64, 2>(); }
