// DFT: every output of every transform equals the defining sum, for every input, within the rounding envelope.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
using namespace kfr;

#include "dftdef.h"

template <typename T>
static __attribute__((noinline)) void cdft(size_t n, bool inverse, bool inplace, bool nulltemp)
{
    dft_plan<T> plan(n);
    // exactly-sized buffers: any access outside them is an error
    complex<T>* in  = (complex<T>*)aligned_allocate<complex<T>>(n, 64);
    complex<T>* out = inplace ? in : (complex<T>*)aligned_allocate<complex<T>>(n, 64);
    double* v  = new double[2 * n];
    double* cr = new double[2 * n];
    double* ci = new double[2 * n];
    for (size_t i = 0; i < n; i++)
    {
        T re = sym::ranged<T>("re", -1, 1), im = sym::ranged<T>("im", -1, 1);
        in[i] = complex<T>(re, im);
        v[2 * i] = re; v[2 * i + 1] = im;
    }
    u8* temp = nulltemp ? nullptr : aligned_allocate<u8>(plan.temp_size ? plan.temp_size : 1, 64);
    plan.execute(out, in, temp, inverse);
    double tol = tolr<T>(n);
    double* C  = new double[n];
    double* Sn = new double[n];
    for (size_t i = 0; i < n; i++) { C[i] = twc(i, n); Sn[i] = inverse ? tws(i, n) : -tws(i, n); }
    for (size_t k = 0; k < n; k++)
    {
        for (size_t i = 0; i < n; i++)
        {
            double c = C[(i * k) % n], s = Sn[(i * k) % n];
            cr[2 * i] = c; cr[2 * i + 1] = -s;
            ci[2 * i] = s; ci[2 * i + 1] = c;
        }
        __sym_close_lin((double)out[k].real(), v, cr, 2 * n, tol, "real part of the transform");
        __sym_close_lin((double)out[k].imag(), v, ci, 2 * n, tol, "imaginary part of the transform");
    }
    if (!inplace)
        for (size_t i = 0; i < n; i++)
            sym::check((sym::bits((double)in[i].real()) == sym::bits(v[2 * i])) & (sym::bits((double)in[i].imag()) == sym::bits(v[2 * i + 1])), "input buffer is not modified");
}
// all four ways to call one size
template <typename T>
static void all4(size_t n)
{
    cdft<T>(n, false, false, false);
    cdft<T>(n, true, false, true);
    cdft<T>(n, false, true, true);
    cdft<T>(n, true, true, false);
}
template <typename T>
static void rangen(size_t a, size_t b) { for (size_t n = a; n <= b; n++) all4<T>(n); }
#define R(T, a, b) ENTRY(dft_##T##_##a##_##b) { rangen<T>(a, b); }
#define S(T, n) ENTRY(dft_##T##_##n) { all4<T>(n); }
R(float, 1, 16) R(float, 17, 24) R(float, 25, 32) R(float, 33, 40)
R(double, 1, 16) R(double, 17, 24) R(double, 25, 32)
// sizes that select each stage: powers of two (each has its own code), special 48 and 60, mixed radices, large primes, arbitrary length
S(float, 48) S(float, 60) S(float, 64) S(float, 77) S(float, 90) S(float, 100) S(float, 101) S(float, 120) S(float, 128) S(float, 210) S(float, 256) S(float, 512)
S(double, 48) S(double, 60) S(double, 64) S(double, 100) S(double, 101) S(double, 128) S(double, 144) S(double, 256)
#if THOROUGH
R(float, 41, 64) R(float, 65, 80) R(float, 81, 96) R(float, 97, 112) R(float, 113, 128) R(double, 33, 48) R(double, 49, 64) R(double, 65, 80) R(double, 81, 100)
S(float, 1024) S(float, 2048) S(float, 4096) S(double, 512) S(double, 1024) S(double, 2048) S(double, 4096) S(float, 97) S(float, 206) S(float, 360) S(float, 500) S(float, 509) S(float, 720) S(float, 1000) S(double, 243) S(double, 509) S(double, 1000) S(double, 1155)
#endif
