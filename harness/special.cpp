// P18: complex functions, gamma, Bessel and interpolation.
#include "mathdef.h"
// complex functions, every component
C32(csin, kfr::csin(cx(x, y)), -1.8, 1.6, -1, 1, 1e-4, 1e-5, std::sin(X) * std::cosh(Y), std::cos(X) * std::sinh(Y))
C64(csin, kfr::csin(cx(x, y)), -1.8, 1.6, 0.15, 0.65, 1e-8, 1e-8, std::sin(X) * std::cosh(Y), std::cos(X) * std::sinh(Y))
C32(ccos, kfr::ccos(cx(x, y)), -1.8, 1.6, -1, 1, 1e-4, 1e-5, std::cos(X) * std::cosh(Y), -(std::sin(X) * std::sinh(Y)))
C64(ccos, kfr::ccos(cx(x, y)), -1.8, 1.6, 0.15, 0.65, 1e-8, 1e-8, std::cos(X) * std::cosh(Y), -(std::sin(X) * std::sinh(Y)))
C32(csinh, kfr::csinh(cx(x, y)), -1, 1, -1.8, 1.6, 1e-4, 1e-5, std::sinh(X) * std::cos(Y), std::cosh(X) * std::sin(Y))
C64(csinh, kfr::csinh(cx(x, y)), 0.15, 0.65, -1.8, 1.6, 1e-8, 1e-8, std::sinh(X) * std::cos(Y), std::cosh(X) * std::sin(Y))
C32(ccosh, kfr::ccosh(cx(x, y)), -1, 1, -1.8, 1.6, 1e-4, 1e-5, std::cosh(X) * std::cos(Y), std::sinh(X) * std::sin(Y))
C64(ccosh, kfr::ccosh(cx(x, y)), 0.15, 0.65, -1.8, 1.6, 1e-8, 1e-8, std::cosh(X) * std::cos(Y), std::sinh(X) * std::sin(Y))
BOTHC(cexp, kfr::cexp(cx(x, y)), -1, 1, -2, 2, 1e-4, 1e-5, 1e-9, 1e-9, std::exp(X) * std::cos(Y), std::exp(X) * std::sin(Y))
BOTHC(cexp2, kfr::cexp2(cx(x, y)), 0.1, 1.5, -2, 2, 1e-4, 1e-5, 1e-8, 1e-8, std::exp2(X) * std::cos(Y * 0.69314718055994530942), std::exp2(X) * std::sin(Y * 0.69314718055994530942))
BOTHC(cexp10, kfr::cexp10(cx(x, y)), -0.5, -0.05, -0.6, 0.9, 1e-4, 1e-5, 1e-8, 1e-8, std::pow(10.0, X) * std::cos(Y * 2.30258509299404568402), std::pow(10.0, X) * std::sin(Y * 2.30258509299404568402))
#define LR (0.5 * std::log(X * X + Y * Y))
#define LA std::atan2(Y, X)
BOTHC(clog, kfr::clog(cx(x, y)), 0.5, 3, 0.5, 3, 1e-5, 1e-5, 1e-10, 1e-10, LR, LA)
BOTHC(clogq2, kfr::clog(cx(x, y)), -3, -0.5, 0.5, 3, 1e-5, 1e-5, 1e-10, 1e-10, LR, LA)
BOTHC(clogq3, kfr::clog(cx(x, y)), -3, -0.5, -3, -0.5, 1e-5, 1e-5, 1e-10, 1e-10, LR, LA)
BOTHC(clog2, kfr::clog2(cx(x, y)), 0.5, 3, 0.5, 3, 1e-5, 1e-5, 1e-10, 1e-10, LR * 1.44269504088896340736, LA * 1.44269504088896340736)
BOTHC(clog10, kfr::clog10(cx(x, y)), 0.5, 3, 0.5, 3, 1e-5, 1e-5, 1e-10, 1e-10, LR * 0.43429448190325182765, LA * 0.43429448190325182765)
BOTHC(polar, kfr::polar(cx(x, y)), 0.5, 3, -3, -0.5, 1e-5, 1e-5, 1e-10, 1e-10, std::sqrt(X * X + Y * Y), LA)
BOTHC(cartesian, kfr::cartesian(cx(x, y)), 0.1, 5, -4, 4, 1e-5, 1e-5, 1e-11, 1e-11, X * std::cos(Y), X * std::sin(Y))
BOTHC(csqr, kfr::csqr(cx(x, y)), -3, 3, -3, 3, 1e-5, 1e-5, 1e-11, 1e-11, X * X - Y * Y, 2 * X * Y)
#define M_ std::sqrt(X * X + Y * Y)
BOTHC(csqrtq1, kfr::csqrt(cx(x, y)), 0.1, 4, 0.1, 4, 1e-5, 1e-5, 1e-11, 1e-11, std::sqrt((M_ + X) / 2), std::sqrt((M_ - X) / 2))
BOTHC(csqrtq2, kfr::csqrt(cx(x, y)), -4, -0.1, 0.1, 4, 1e-5, 1e-5, 1e-11, 1e-11, std::sqrt((M_ + X) / 2), std::sqrt((M_ - X) / 2))
BOTHC(csqrtq3, kfr::csqrt(cx(x, y)), -4, -0.1, -4, -0.1, 1e-5, 1e-5, 1e-11, 1e-11, std::sqrt((M_ + X) / 2), -std::sqrt((M_ - X) / 2))
BOTHC(csqrtq4, kfr::csqrt(cx(x, y)), 0.1, 4, -4, -0.1, 1e-5, 1e-5, 1e-11, 1e-11, std::sqrt((M_ + X) / 2), -std::sqrt((M_ - X) / 2))
BOTH2(cabs, kfr::cabs(cx(x, y)), -5, 5, 0.1, 5, 1e-5, 1e-5, 1e-11, 1e-11, M_)
BOTH2(cabssqr, kfr::cabssqr(cx(x, y)), -5, 5, -5, 5, 1e-5, 1e-5, 1e-11, 1e-11, X * X + Y * Y)
BOTH2(carg, kfr::carg(cx(x, y)), -3, -0.5, -3, -0.5, 1e-5, 1e-5, 1e-10, 1e-10, LA)
// a lane of a complex vector
BOTHC(cexp_lane, complex<T>(kfr::cexp(vec<complex<T>, 2>(cx(T(0.5), T(1)), cx(x, y)))[1]), -1, 1, -2, 2, 1e-4, 1e-5, 1e-9, 1e-9, std::exp(X) * std::cos(Y), std::exp(X) * std::sin(Y))
BOTHC(csqrt_lane, complex<T>(kfr::csqrt(vec<complex<T>, 2>(cx(T(0.5), T(1)), cx(x, y)))[1]), -4, -0.1, -4, -0.1, 1e-5, 1e-5, 1e-11, 1e-11, std::sqrt((M_ + X) / 2), -std::sqrt((M_ - X) / 2))
// gamma by the library-independent Stirling series (error below 1e-13 at x+12)
static double lgamma_ref(double x)
{
    double p = 1, z = x;
    for (int i = 0; i < 12; i++) { p *= z; z += 1; }
    double z2 = z * z;
    double s  = (z - 0.5) * std::log(z) - z + 0.91893853320467274178 + 1 / (12 * z) - 1 / (360 * z * z2) + 1 / (1260 * z * z2 * z2) - 1 / (1680 * z * z2 * z2 * z2);
    return std::exp(s) / p;
}
BOTH(gamma, 0.1, 10, 0, 1e-3, 0, 1e-10, lgamma_ref(X))
BOTHN(factorial, kfr::factorial_approx(x), 0, 10, 0, 1e-3, 0, 1e-10, lgamma_ref(X + 1))
static double bessel_ref(double x)
{
    double q = x * x / 4, r = 1;
    for (int k = 60; k > 0; k--) r = r * q / ((double)k * k) + 1;
    return r;
}
ACC(modzerobessel, f32, -16, 16, 0, 1e-4, bessel_ref(X))
ACC(modzerobessel, f64, -25, 25, 0, 1e-11, bessel_ref(X))
BOTHN(modzerobessel_lane, (kfr::modzerobessel(vec<T, 4>(T(2.5), T(4), x, T(0.1)))[2]), -16, 16, 0, 1e-4, 0, 1e-11, bessel_ref(X))
// interpolation between samples a,b (c,d outside)
template <typename T> static void interp1(T m, T a, T b, T c, T d)
{
    const double e = sizeof(T) == 4 ? 1e-5 : 1e-13;
    double M = m, A = a, B = b, C = c, D = d;
    __sym_close_fn(kfr::linear(m, a, b), A + M * (B - A), e, 0, "linear");
    const double p = D - C - A + B; // a,b,c,d are the samples at -1,0,1,2
    __sym_close_fn(kfr::cubic(m, a, b, c, d), ((p * M + (A - B - p)) * M + (C - A)) * M + B, e, 0, "cubic");
    const double k3 = 0.5 * (D - A) - 1.5 * (C - B), k2 = A - 2.5 * B + 2 * C - 0.5 * D, k1 = 0.5 * (C - A);
    __sym_close_fn(kfr::catmullrom(m, a, b, c, d), ((k3 * M + k2) * M + k1) * M + B, e, 0, "catmullrom");
}
// any samples, several positions
template <typename T> static void interp_samples()
{
    T a = sym::ranged<T>("a", -1, 1), b = sym::ranged<T>("b", -1, 1), c = sym::ranged<T>("c", -1, 1), d = sym::ranged<T>("d", -1, 1);
    for (T m : { T(0), T(0.125), T(0.3), T(0.5), T(0.75), T(0.9), T(1) }) interp1(m, a, b, c, d);
    const double e = sizeof(T) == 4 ? 1e-5 : 1e-13;
    double B = b, C = c;
    __sym_close_fn(kfr::linear(T(0), b, c), B, e, 0, "linear at 0");
    __sym_close_fn(kfr::linear(T(1), b, c), C, e, 0, "linear at 1");
    __sym_close_fn(kfr::cubic(T(0), a, b, c, d), B, e, 0, "cubic at 0");
    __sym_close_fn(kfr::cubic(T(1), a, b, c, d), C, e, 0, "cubic at 1");
    __sym_close_fn(kfr::catmullrom(T(0), a, b, c, d), B, e, 0, "catmullrom at 0");
    __sym_close_fn(kfr::catmullrom(T(1), a, b, c, d), C, e, 0, "catmullrom at 1");
}
// any position, each sample in turn and all together
template <typename T> static void interp_position()
{
    T m = sym::ranged<T>("mu", 0, 1);
    for (int i = 0; i < 4; i++) interp1(m, T(i == 0), T(i == 1), T(i == 2), T(i == 3));
    interp1(m, T(1), T(-0.5), T(0.75), T(0.25));
}
template <typename T> static void interp_nearest()
{
    T m = sym::any<T>("mu"), a = sym::any<T>("a"), b = sym::any<T>("b");
    __sym_assume(!sym::isnan_(m));
    sym::check(sym::samez(T(kfr::nearest(m, a, b)), m < T(0.5) ? a : b), "nearest");
    m = sym::ranged<T>("mr", 0, 1), a = sym::ranged<T>("ar", -1, 1), b = sym::ranged<T>("br", -1, 1);
    sym::check(sym::samez(kfr::linear(T(0), a, b), a), "linear at 0");
}
ENTRY(interp_samples_f32) { interp_samples<f32>(); }
ENTRY(interp_samples_f64) { interp_samples<f64>(); }
ENTRY(interp_position_f32) { interp_position<f32>(); }
ENTRY(interp_position_f64) { interp_position<f64>(); }
ENTRY(interp_nearest_f32) { interp_nearest<f32>(); }
ENTRY(interp_nearest_f64) { interp_nearest<f64>(); }
template <typename T> static void interp_vec()
{
    vec<T, 4> m, a, b;
    for (size_t i = 0; i < 4; i++) { m[i] = sym::any<T>("m"); a[i] = sym::any<T>("a"); b[i] = sym::any<T>("b"); }
    auto r = kfr::nearest(m, a, b);
    for (size_t i = 0; i < 4; i++) sym::check(sym::samez(T(r[i]), m[i] < T(0.5) ? T(a[i]) : T(b[i])), "nearest of vectors");
}
ENTRY(nearest_vec_f32) { interp_vec<f32>(); }
ENTRY(nearest_vec_f64) { interp_vec<f64>(); }
BOTHN(cosine, kfr::cosine(x, T(-1), T(2)), 0, 1, 3e-3, 0, 3e-3, 0, -1 + 3 * (1 - std::cos(X * 3.14159265358979323846)) / 2)
BOTHN(cosinev, kfr::cosine(T(0.25), x, T(2)), -1, 1, 3e-3, 0, 3e-3, 0, X + (2 - X) * (1 - std::cos(0.25 * 3.14159265358979323846)) / 2)
template <typename T> static void special()
{
    const double e = sizeof(T) == 4 ? 1e-5 : 1e-13;
    auto near = [&](T a, double b, const char* m) { sym::check(std::fabs((double)a - b) <= e * (1 + std::fabs(b)), m); };
    auto nearc = [&](complex<T> a, double re, double im, const char* m) { near(a.real(), re, m); near(a.imag(), im, m); };
    nearc(kfr::csqrt(cx(T(0), T(0))), 0, 0, "csqrt(0)"), nearc(kfr::csqrt(cx(T(4), T(0))), 2, 0, "csqrt(4)"), nearc(kfr::csqrt(cx(T(-4), T(0))), 0, 2, "csqrt(-4)");
    nearc(kfr::csqrt(cx(T(0), T(2))), 1, 1, "csqrt(2i)"), nearc(kfr::csqrt(cx(T(0), T(-2))), 1, -1, "csqrt(-2i)");
    nearc(kfr::cexp(cx(T(0), T(0))), 1, 0, "cexp(0)"), nearc(kfr::clog(cx(T(1), T(0))), 0, 0, "clog(1)"), nearc(kfr::clog(cx(T(-1), T(0))), 0, 3.14159265358979323846, "clog(-1)");
    nearc(kfr::csin(cx(T(0), T(0))), 0, 0, "csin(0)"), nearc(kfr::ccos(cx(T(0), T(0))), 1, 0, "ccos(0)"), nearc(kfr::polar(cx(T(0), T(-2))), 2, -1.57079632679489661923, "polar(-2i)");
    near(kfr::cabs(cx(T(3), T(-4))), 5, "cabs"), near(kfr::carg(cx(T(-1), T(0))), 3.14159265358979323846, "carg(-1)"), near(kfr::cabs(cx(T(0), T(0))), 0, "cabs(0)");
    near(kfr::gamma(T(5)), 24, "gamma(5)");
    sym::check(kfr::modzerobessel(T(0)) == 1, "modzerobessel(0)");
}
ENTRY(special_f32) { special<f32>(); }
ENTRY(special_f64) { special<f64>(); }
