// Multi-dimensional DFT (complex and real) and DCT equal their definitions.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
using namespace kfr;
#include "dftdef.h"

static void decode(size_t f, const size_t* sh, size_t d, size_t* ix) { for (size_t i = d; i-- > 0;) { ix[i] = f % sh[i]; f /= sh[i]; } }
static void coef(const size_t* sh, size_t d, const size_t* a, const size_t* b, double sign, double& re, double& im)
{
    re = 1; im = 0;
    for (size_t i = 0; i < d; i++)
    {
        double c = twc(a[i] * b[i], sh[i]), s = sign * tws(a[i] * b[i], sh[i]);
        double r = re * c - im * s;
        im = re * s + im * c;
        re = r;
    }
}
template <typename T, typename Plan>
static __attribute__((noinline)) void mdc(const Plan& plan, const size_t* sh, size_t d, bool inverse, bool inplace, bool nulltemp)
{
    size_t n = 1;
    for (size_t i = 0; i < d; i++) n *= sh[i];
    complex<T>* in  = aligned_allocate<complex<T>>(n, 64);
    complex<T>* out = inplace ? in : aligned_allocate<complex<T>>(n, 64);
    double *v = new double[2 * n], *cr = new double[2 * n], *ci = new double[2 * n];
    for (size_t i = 0; i < n; i++)
    {
        v[2 * i] = sym::ranged<T>("re", -1, 1); v[2 * i + 1] = sym::ranged<T>("im", -1, 1);
        in[i] = complex<T>((T)v[2 * i], (T)v[2 * i + 1]);
    }
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size ? plan.temp_size : 1, 64);
    plan.execute(out, in, temp, inverse);
    for (size_t k = 0; k < n; k++)
    {
        size_t a[4], b[4];
        decode(k, sh, d, a);
        for (size_t i = 0; i < n; i++)
        {
            decode(i, sh, d, b);
            double c, s;
            coef(sh, d, a, b, inverse ? 1 : -1, c, s);
            cr[2 * i] = c; cr[2 * i + 1] = -s; ci[2 * i] = s; ci[2 * i + 1] = c;
        }
        __sym_close_lin((double)out[k].real(), v, cr, 2 * n, tolr<T>(n), "real part of the multidimensional transform");
        __sym_close_lin((double)out[k].imag(), v, ci, 2 * n, tolr<T>(n), "imaginary part of the multidimensional transform");
    }
    if (!inplace)
        for (size_t i = 0; i < n; i++)
            sym::check((sym::bits((double)in[i].real()) == sym::bits(v[2 * i])) & (sym::bits((double)in[i].imag()) == sym::bits(v[2 * i + 1])), "input buffer is not modified");
}
template <typename T, index_t D>
static void mdc4(shape<D> s)
{
    size_t sh[4];
    for (size_t i = 0; i < s.dims(); i++) sh[i] = s[i];
    dft_plan_md<T, D> plan(s);
    mdc<T>(plan, sh, s.dims(), false, false, false);
    mdc<T>(plan, sh, s.dims(), true, false, true);
    mdc<T>(plan, sh, s.dims(), false, true, true);
    mdc<T>(plan, sh, s.dims(), true, true, false);
}
template <typename T, index_t D>
static __attribute__((noinline)) void mdr(shape<D> s, bool enough, bool nulltemp, bool inplace)
{
    const size_t d = s.dims();
    size_t sh[4], n = 1;
    for (size_t i = 0; i < d; i++) { sh[i] = s[i]; n *= sh[i]; }
    size_t csh[4];
    for (size_t i = 0; i < d; i++) csh[i] = sh[i];
    csh[d - 1]      = sh[d - 1] / 2 + 1;
    const size_t cn = n / sh[d - 1] * csh[d - 1];
    dft_plan_md_real<T, D> plan(s, enough);
    sym::check(plan.complex_size().product() == cn, "complex size of the real multidimensional transform");
    T* rx           = aligned_allocate<T>(inplace || enough ? 2 * cn : n, 64);
    complex<T>* cx  = inplace ? (complex<T>*)rx : aligned_allocate<complex<T>>(cn, 64);
    double *v = new double[2 * n], *cr = new double[2 * n], *ci = new double[2 * n];
    for (size_t i = 0; i < n; i++) { v[i] = sym::ranged<T>("x", -1, 1); rx[i] = (T)v[i]; }
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size ? plan.temp_size : 1, 64);
    plan.execute(cx, rx, temp);
    size_t a[4], b[4];
    for (size_t k = 0; k < cn; k++)
    {
        decode(k, csh, d, a);
        for (size_t i = 0; i < n; i++) { decode(i, sh, d, b); coef(sh, d, a, b, -1, cr[i], ci[i]); }
        __sym_close_lin((double)cx[k].real(), v, cr, n, tolr<T>(n), "real part of the real multidimensional spectrum");
        __sym_close_lin((double)cx[k].imag(), v, ci, n, tolr<T>(n), "imaginary part of the real multidimensional spectrum");
    }
    // inverse of the spectrum just computed returns n * x
    plan.execute(rx, cx, temp);
    for (size_t i = 0; i < n; i++)
    {
        for (size_t j = 0; j < n; j++) cr[j] = i == j ? (double)n : 0;
        __sym_close_lin((double)rx[i], v, cr, n, 4 * (double)n * tolr<T>(n), "inverse real multidimensional transform restores the signal (times the size)");
    }
}
#define MC(T, name, ...) ENTRY(mdft_##T##_##name) { mdc4<T>(shape{ __VA_ARGS__ }); }
MC(float, 4x3, 4, 3) MC(float, 1x6, 1, 6) MC(float, 6x1, 6, 1) MC(float, 8x8, 8, 8) MC(float, 2x3x4, 2, 3, 4) MC(float, 3x1x4, 3, 1, 4) MC(float, 7, 7)
MC(double, 5x4, 5, 4) MC(double, 2x2x2x3, 2, 2, 2, 3) MC(double, 16x2, 16, 2) MC(double, 1x1, 1, 1)
ENTRY(mdft_dynamic) { mdc4<float>(shape<dynamic_shape>{ 3, 4 }); mdc4<double>(shape<dynamic_shape>{ 2, 3, 2 }); mdc4<float>(shape<dynamic_shape>{ 6 }); }
#define MR(T, name, ...) ENTRY(mdrdft_##T##_##name) { for (int m = 0; m < 6; m++) mdr<T>(shape{ __VA_ARGS__ }, m & 1, m & 2, m >= 4 && (m & 1)); }
MR(float, 4x6, 4, 6) MR(float, 3x4, 3, 4) MR(float, 1x8, 1, 8) MR(float, 5x2, 5, 2) MR(float, 2x3x4, 2, 3, 4) MR(double, 4x4, 4, 4) MR(double, 3x2x2, 3, 2, 2) MR(double, 8, 8)
ENTRY(mdrdft_dynamic) { for (int m = 0; m < 4; m++) { mdr<float>(shape<dynamic_shape>{ 3, 4 }, m & 1, m & 2, false); mdr<double>(shape<dynamic_shape>{ 2, 3, 2 }, m & 1, m & 2, false); } }
#if THOROUGH
MC(float, 16x16, 16, 16) MC(double, 12x10, 12, 10) MC(float, 4x5x6, 4, 5, 6) MR(float, 16x16, 16, 16) MR(double, 6x10, 6, 10) MR(double, 3x4x6, 3, 4, 6) MC(float, 103x2, 103, 2)
#endif

template <typename T>
static __attribute__((noinline)) void dct(size_t n, bool inverse, bool inplace, bool nulltemp)
{
    dct_plan<T> plan(n);
    T* in     = aligned_allocate<T>(n, 64);
    T* out    = inplace ? in : aligned_allocate<T>(n, 64);
    double *v = new double[n], *c = new double[n];
    for (size_t i = 0; i < n; i++) { v[i] = sym::ranged<T>("x", -1, 1); in[i] = (T)v[i]; }
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size, 64);
    plan.execute(out, in, temp, inverse);
    for (size_t k = 0; k < n; k++)
    {
        for (size_t i = 0; i < n; i++)
            c[i] = inverse ? (i == 0 ? 0.5 : twc(i * (2 * k + 1), 4 * n)) : twc(k * (2 * i + 1), 4 * n);
        __sym_close_lin((double)out[k], v, c, n, tolr<T>(n), inverse ? "inverse DCT" : "forward DCT");
    }
}
template <typename T> static void dct4(size_t n) { for (int m = 0; m < 4; m++) dct<T>(n, m & 1, m & 2, m == 1 || m == 2); }
ENTRY(dct_float) { for (size_t n = 1; n <= 20; n++) dct4<float>(n); }
ENTRY(dct_double) { for (size_t n = 1; n <= 16; n++) dct4<double>(n); }
ENTRY(dct_big) { for (size_t n : { 32, 33, 48, 60, 64 }) { dct4<float>(n); dct4<double>(n); } }
