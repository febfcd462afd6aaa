// Real DFT: packed spectra (CCs and Perm) equal the definition; the inverse equals the inverse definition.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
using namespace kfr;
#include "dftdef.h"

template <typename T>
static __attribute__((noinline)) void fwd(size_t n, dft_pack_format fmt, bool inplace, bool nulltemp)
{
    dft_plan_real<T> plan(n, fmt);
    const size_t cs = fmt == dft_pack_format::CCs ? n / 2 + 1 : n / 2;
    sym::check(plan.complex_size() == cs, "spectrum size for the pack format");
    complex<T>* out = aligned_allocate<complex<T>>(cs, 64);
    T* in           = inplace ? (T*)out : aligned_allocate<T>(n, 64);
    double* v       = new double[n];
    double* c       = new double[n];
    for (size_t i = 0; i < n; i++) { in[i] = sym::ranged<T>("x", -1, 1); v[i] = in[i]; }
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size ? plan.temp_size : 1, 64);
    plan.execute(out, in, temp);
    const double tol = tolr<T>(n);
    for (size_t k = 0; k <= n / 2; k++)
    {
        double re, im;
        if (k == n / 2 && fmt == dft_pack_format::Perm) { re = out[0].imag(); im = 0; }
        else if (k == 0 && fmt == dft_pack_format::Perm) { re = out[0].real(); im = 0; }
        else { re = out[k].real(); im = out[k].imag(); }
        for (size_t i = 0; i < n; i++) c[i] = twc(i * k, n);
        __sym_close_lin(re, v, c, n, tol, "real part of the packed spectrum");
        for (size_t i = 0; i < n; i++) c[i] = -tws(i * k, n);
        __sym_close_lin(im, v, c, n, tol, "imaginary part of the packed spectrum");
    }
    if (!inplace)
        for (size_t i = 0; i < n; i++) sym::check(sym::bits((double)in[i]) == sym::bits(v[i]), "input buffer is not modified");
}
template <typename T>
static __attribute__((noinline)) void inv(size_t n, dft_pack_format fmt, bool inplace, bool nulltemp)
{
    dft_plan_real<T> plan(n, fmt);
    const size_t cs = fmt == dft_pack_format::CCs ? n / 2 + 1 : n / 2;
    complex<T>* in  = aligned_allocate<complex<T>>(cs, 64);
    T* out          = inplace ? (T*)in : aligned_allocate<T>(n, 64);
    double* v       = new double[n]; // Re X0, Re X(n/2), then Re, Im of X1..X(n/2-1)
    double* c       = new double[n];
    for (size_t i = 0; i < n; i++) v[i] = sym::ranged<T>("x", -1, 1);
    if (fmt == dft_pack_format::CCs) { in[0] = complex<T>((T)v[0], 0); in[n / 2] = complex<T>((T)v[1], 0); }
    else in[0] = complex<T>((T)v[0], (T)v[1]);
    for (size_t k = 1; k < n / 2; k++) in[k] = complex<T>((T)v[2 * k], (T)v[2 * k + 1]);
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size ? plan.temp_size : 1, 64);
    plan.execute(out, in, temp);
    const double tol = 2 * tolr<T>(n);
    for (size_t i = 0; i < n; i++)
    {
        c[0] = 1;
        c[1] = i % 2 ? -1 : 1;
        for (size_t k = 1; k < n / 2; k++) { c[2 * k] = 2 * twc(i * k, n); c[2 * k + 1] = -2 * tws(i * k, n); }
        __sym_close_lin((double)out[i], v, c, n, tol, "sample of the inverse real transform");
    }
    if (!inplace)
        for (size_t k = 1; k < n / 2; k++)
            sym::check((sym::bits((double)in[k].real()) == sym::bits(v[2 * k])) & (sym::bits((double)in[k].imag()) == sym::bits(v[2 * k + 1])), "input spectrum is not modified");
}
template <typename T>
static void all(size_t n)
{
    for (auto fmt : { dft_pack_format::CCs, dft_pack_format::Perm })
    {
        fwd<T>(n, fmt, false, false);
        inv<T>(n, fmt, false, true);
        fwd<T>(n, fmt, true, true);
        inv<T>(n, fmt, true, false);
    }
}
#define R(T, a, b) ENTRY(rdft_##T##_##a##_##b) { for (size_t n = a; n <= b; n += 2) all<T>(n); }
#define S(T, n) ENTRY(rdft_##T##_##n) { all<T>(n); }
R(float, 2, 24) R(float, 26, 40) R(double, 2, 24) R(double, 26, 32)
S(float, 48) S(float, 60) S(float, 64) S(float, 96) S(float, 100) S(float, 120) S(float, 128) S(float, 202) S(float, 256)
S(double, 48) S(double, 64) S(double, 96) S(double, 120) S(double, 128) S(double, 256)
#if THOROUGH
R(float, 42, 64) R(float, 66, 96) R(float, 98, 128) R(double, 34, 64) R(double, 66, 100)
S(float, 512) S(float, 1024) S(float, 2048) S(double, 512) S(double, 1024) S(double, 202) S(double, 2048) S(float, 1000) S(double, 720)
#endif
// an odd size is rejected, not computed
ENTRY(rdft_odd_rejected)
{
    uint64_t n = 2 * sym::pick("h", 0, 8) + 1;
    bool thrown = false;
    try { dft_plan_real<float> plan(n); } catch (...) { thrown = true; }
    sym::check(thrown, "odd real size is rejected");
}
// convenience functions and their plan cache: any order of sizes and kinds
template <typename T>
static void helper(size_t n, unsigned kind)
{
    double* v = new double[2 * n];
    double* c = new double[2 * n];
    const double tol = 2 * tolr<T>(n);
    if (kind < 2)
    {
        univector<complex<T>> x(n);
        for (size_t i = 0; i < n; i++) { v[2 * i] = sym::ranged<T>("re", -1, 1); v[2 * i + 1] = sym::ranged<T>("im", -1, 1); x[i] = complex<T>((T)v[2 * i], (T)v[2 * i + 1]); }
        univector<complex<T>> y = kind == 0 ? dft(x) : idft(x);
        sym::check(y.size() == n, "dft result size");
        for (size_t k = 0; k < n; k++)
        {
            for (size_t i = 0; i < n; i++) { c[2 * i] = twc(i * k, n); c[2 * i + 1] = (kind ? -1 : 1) * tws(i * k, n); }
            __sym_close_lin((double)y[k].real(), v, c, 2 * n, tol, "dft()/idft() real part");
        }
    }
    else if (kind == 2)
    {
        univector<T> x(n);
        for (size_t i = 0; i < n; i++) { x[i] = sym::ranged<T>("x", -1, 1); v[i] = x[i]; }
        univector<complex<T>> y = realdft(x);
        sym::check(y.size() == n / 2 + 1, "realdft result size");
        for (size_t k = 0; k <= n / 2; k++)
        {
            for (size_t i = 0; i < n; i++) c[i] = twc(i * k, n);
            __sym_close_lin((double)y[k].real(), v, c, n, tol, "realdft() real part");
            for (size_t i = 0; i < n; i++) c[i] = -tws(i * k, n);
            __sym_close_lin((double)y[k].imag(), v, c, n, tol, "realdft() imaginary part");
        }
    }
    else
    {
        univector<complex<T>> x(n / 2 + 1);
        for (size_t i = 0; i < n; i++) v[i] = sym::ranged<T>("x", -1, 1);
        x[0] = complex<T>((T)v[0], 0); x[n / 2] = complex<T>((T)v[1], 0);
        for (size_t k = 1; k < n / 2; k++) x[k] = complex<T>((T)v[2 * k], (T)v[2 * k + 1]);
        univector<T> y = irealdft(x);
        sym::check(y.size() == n, "irealdft result size");
        for (size_t i = 0; i < n; i++)
        {
            c[0] = 1; c[1] = i % 2 ? -1 : 1;
            for (size_t k = 1; k < n / 2; k++) { c[2 * k] = 2 * twc(i * k, n); c[2 * k + 1] = -2 * tws(i * k, n); }
            __sym_close_lin((double)y[i], v, c, n, tol, "irealdft() sample");
        }
    }
}
ENTRY(rdft_helpers)
{
    for (size_t r = 0; r < 2; r++)
        for (unsigned kind = 0; kind < 4; kind++)
            for (size_t n : { 8, 6, 16, 8 }) { helper<float>(n, kind); helper<double>(n, kind); }
}
// cached plans never answer for another size: after any even size, its odd neighbours are still rejected
template <typename T>
static void cached(size_t n, size_t odd)
{
    (void)dft_cache::instance().getreal(ctype_t<T>(), n);
    bool thrown = false;
    try { (void)dft_cache::instance().getreal(ctype_t<T>(), odd); } catch (...) { thrown = true; }
    sym::check(thrown, "odd real size is rejected by the plan cache");
    for (size_t m : { n, n + 2, 2 * n, n })
    {
        sym::check(dft_cache::instance().getreal(ctype_t<T>(), m)->size == m, "cached real plan has the requested size");
        for (size_t c : { m, m + 1, m / 2 }) sym::check(dft_cache::instance().get(ctype_t<T>(), c)->size == c, "cached plan has the requested size");
    }
}
ENTRY(rdft_cache)
{
    size_t n = 2 * sym::pick("h", 1, 8);
    if (sym::pick("above", 0, 1)) cached<float>(n, n + 1);
    else cached<double>(n, n - 1);
    if (sym::pick("again", 0, 1)) { dft_cache::instance().clear(); cached<double>(n, n + 1); }
}
