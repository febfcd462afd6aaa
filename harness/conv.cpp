// Convolution and correlation functions and the streaming convolution filter equal the direct sums.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include <kfr/dsp.hpp>
using namespace kfr;

template <typename T> constexpr double unit() { return sizeof(subtype<T>) == 4 ? 5.9604644775390625e-8 : 1.1102230246251565e-16; }
template <typename T> constexpr bool cx = !std::is_same_v<T, subtype<T>>;
struct C2 { double re, im; };
template <typename T> static T mk(double a, double b) { if constexpr (cx<T>) return T((subtype<T>)a, (subtype<T>)b); else return (T)a; }
template <typename T> static C2 symv(bool second = true) { C2 r{ sym::ranged<subtype<T>>("re", -1, 1), 0 }; if (cx<T> && second) r.im = sym::ranged<subtype<T>>("im", -1, 1); return r; }
template <typename T> static double re_(const T& v) { if constexpr (cx<T>) return v.real(); else return v; }
template <typename T> static double im_(const T& v) { if constexpr (cx<T>) return v.imag(); else return 0; }
static double X(double a, double b) { return __sym_xmul(a, b); }
static double A(double a, double b) { return __sym_xadd(a, b); }
// acc += a*b exactly
static void mac(C2& acc, C2 a, C2 b, bool c)
{
    acc.re = A(acc.re, X(a.re, b.re));
    if (c)
    {
        acc.re = A(acc.re, X(-a.im, b.im));
        acc.im = A(acc.im, A(X(a.re, b.im), X(a.im, b.re)));
    }
}
static size_t np2(size_t n) { size_t p = 1; while (p < n) p *= 2; return p; }

template <typename T>
static __attribute__((noinline)) void conv(size_t n, size_t m, int kind)
{
    C2 *a = new C2[n], *b = new C2[m];
    univector<T> ua(n), ub(m);
    for (size_t i = 0; i < n; i++) { a[i] = symv<T>(); ua[i] = mk<T>(a[i].re, a[i].im); }
    for (size_t i = 0; i < m; i++) { if (kind == 2) b[i] = a[i]; else b[i] = symv<T>(); ub[i] = mk<T>(b[i].re, b[i].im); }
    univector<T> r = kind == 0 ? convolve(ua, ub) : kind == 1 ? correlate(ua, ub) : autocorrelate(ua);
    const size_t full = n + m - 1, first = kind == 2 ? n - 1 : 0;
    sym::check(r.size() == full - first, "result size");
    const double tol = 200 * unit<T>() * np2(full) * std::log2((double)np2(full) + 1) * std::sqrt((double)n * m);
    for (size_t k = first; k < full; k++)
    {
        C2 acc{ 0, 0 };
        for (size_t i = 0; i < n; i++)
            if (k >= i && k - i < m) mac(acc, a[i], b[kind == 0 ? k - i : m - 1 - (k - i)], cx<T>);
        __sym_close(re_(r[k - first]), acc.re, tol, "real part of the convolution");
        if (cx<T>) __sym_close(im_(r[k - first]), acc.im, tol, "imaginary part of the convolution");
    }
    for (size_t i = 0; i < n; i++) sym::check(re_(ua[i]) == a[i].re, "first operand is not modified");
}
#define CV(T, name) \
    ENTRY(conv_##name) { for (size_t n = 1; n <= 5; n++) for (size_t m = 1; m <= 5; m++) conv<T>(n, m, 0); conv<T>(9, 3, 0); conv<T>(3, 9, 0); conv<T>(8, 9, 0); } \
    ENTRY(corr_##name) { for (size_t n = 1; n <= 4; n++) for (size_t m = 1; m <= 4; m++) conv<T>(n, m, 1); conv<T>(7, 3, 1); conv<T>(2, 7, 1); } \
    ENTRY(acorr_##name) { for (size_t n = 1; n <= 7; n++) conv<T>(n, n, 2); }
CV(float, f32) CV(double, f64) CV(complex<float>, c32) CV(complex<double>, c64)

// streaming: chunk[] is any split of the input, the impulse response is fixed and irregular
template <typename T>
static __attribute__((noinline)) void filt(size_t taps, size_t block, size_t len, const size_t* cuts, size_t ncuts, int mode)
{
    C2* h = new C2[taps];
    univector<T> uh(taps);
    for (size_t i = 0; i < taps; i++) { h[i] = C2{ ((i * 7 + 3) % 11) / 8.0 - 0.5, cx<T> ? ((i * 5 + 1) % 7) / 8.0 - 0.25 : 0 }; uh[i] = mk<T>(h[i].re, h[i].im); }
    convolve_filter<T> f(uh, block);
    C2* x  = new C2[len];
    T* in  = aligned_allocate<T>(len, 64);
    T* out = aligned_allocate<T>(len, 64);
    if (mode == 1) // run something else first, then reset
    {
        T junk[5], o[5];
        for (size_t i = 0; i < 5; i++) junk[i] = mk<T>(0.5 + i, 0.25);
        f.apply(o, junk, 5);
        f.reset();
    }
    if (mode == 2) // replace the response with one of another length, then the real one
    {
        univector<T> other(taps + 5);
        for (size_t i = 0; i < taps + 5; i++) other[i] = mk<T>(1, 1);
        f.set_data(other);
        T junk[3], o[3];
        for (size_t i = 0; i < 3; i++) junk[i] = mk<T>(0.5 + i, 0.25);
        f.apply(o, junk, 3);
        f.set_data(uh);
    }
    for (size_t i = 0; i < len; i++) { x[i] = symv<T>(); in[i] = mk<T>(x[i].re, x[i].im); }
    size_t pos = 0;
    for (size_t c = 0; c < ncuts; c++)
    {
        size_t n = cuts[c];
        if (pos + n > len) n = len - pos;
        T* ci = aligned_allocate<T>(n ? n : 1, 64); // exactly sized pieces
        T* co = aligned_allocate<T>(n ? n : 1, 64);
        for (size_t i = 0; i < n; i++) ci[i] = in[pos + i];
        f.apply(co, ci, n);
        for (size_t i = 0; i < n; i++) out[pos + i] = co[i];
        pos += n;
    }
    const double tol = 400 * unit<T>() * 2 * np2(block) * (1 + std::log2(2.0 * np2(block))) * (1 + (double)taps / block);
    double* v = new double[2 * len]; double* cr = new double[2 * len]; double* ci = new double[2 * len];
    for (size_t i = 0; i < len; i++) { v[2 * i] = x[i].re; v[2 * i + 1] = x[i].im; }
    for (size_t k = 0; k < pos; k++)
    {
        for (size_t i = 0; i < len; i++)
        {
            C2 g = i <= k && k - i < taps ? h[k - i] : C2{ 0, 0 };
            cr[2 * i] = g.re; cr[2 * i + 1] = -g.im; ci[2 * i] = g.im; ci[2 * i + 1] = g.re;
        }
        __sym_close_lin(re_(out[k]), v, cr, 2 * len, tol, "real part of the filtered sample");
        if (cx<T>) __sym_close_lin(im_(out[k]), v, ci, 2 * len, tol, "imaginary part of the filtered sample");
    }
}
template <typename T>
static void filt_all(size_t taps, size_t block)
{
    const size_t len = 3 * np2(block) + taps % 3 + 2;
    static const size_t splits[][12] = { { 100 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 100 }, { 3, 2, 4, 1, 5, 3, 100 }, { 4, 4, 4, 4, 100 }, { 2, 2, 6, 0, 3, 100 }, { 7, 1, 8, 100 } };
    int i = 0;
    for (auto& s : splits) filt<T>(taps, block, len, s, 12, i++ % 3);
}
#define CF(T, name) \
    ENTRY(cfilt_##name##_b1) { for (size_t t = 1; t <= 4; t++) filt_all<T>(t, 1); } \
    ENTRY(cfilt_##name##_b2) { for (size_t t : { 1, 2, 3, 5, 6 }) filt_all<T>(t, 2); } \
    ENTRY(cfilt_##name##_b4) { for (size_t t : { 1, 3, 4, 5, 8, 9, 13 }) filt_all<T>(t, 4); filt_all<T>(6, 3); } \
    ENTRY(cfilt_##name##_b8) { for (size_t t : { 7, 8, 17, 25 }) filt_all<T>(t, 8); }
CF(float, f32) CF(double, f64) CF(complex<float>, c32) CF(complex<double>, c64)
// every split of a short stream into up to four calls
template <typename T>
static void anysplit(size_t taps, size_t block, size_t len)
{
    size_t s[4], left = len;
    for (int i = 0; i < 3; i++) { s[i] = sym::pick("cut", 0, len); sym::assume(s[i] <= left); left -= s[i]; }
    s[3] = left;
    filt<T>(taps, block, len, s, 4, 0);
}
ENTRY(cfilt_anysplit_f32) { anysplit<float>(6, 4, 9); }
ENTRY(cfilt_anysplit_c64) { anysplit<complex<double>>(5, 2, 6); }
#if THOROUGH
ENTRY(cfilt_anysplit_f64) { anysplit<double>(11, 4, 14); }
ENTRY(cfilt_anysplit_c32) { anysplit<complex<float>>(9, 4, 12); }
ENTRY(cfilt_f32_b32) { for (size_t t : { 31, 33, 70 }) filt_all<float>(t, 32); }
ENTRY(cfilt_c32_b64) { for (size_t t : { 63, 129 }) filt_all<complex<float>>(t, 64); }
ENTRY(conv_big_f64) { conv<double>(16, 16, 0); conv<double>(20, 13, 1); conv<complex<double>>(12, 15, 0); }
#endif
