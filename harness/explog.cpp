// P17: exponentials, logarithms, powers, hyperbolic functions and unit conversions.
#include "mathdef.h"
ACC(exp, f32, -80, 80, 1e-37, 1e-5, std::exp(X))
ACC(exp, f64, -200, 200, 0, 1e-12, std::exp(X))
ACCN(exp_hi, kfr::exp(x), f64, 690, 709, 0, 1e-12, std::exp(X))
ACCN(exp_lo, kfr::exp(x), f64, -707, -690, 0, 1e-12, std::exp(X))
ACC(exp2, f32, -120, 120, 1e-37, 1e-4, std::exp2(X))
ACC(exp2, f64, -300, 300, 0, 1e-11, std::exp2(X))
ACC(exp10, f32, -36, 36, 1e-37, 1e-4, std::pow(10.0, X))
ACC(exp10, f64, -90, 90, 0, 1e-11, std::pow(10.0, X))
ACC(log, f32, 1e-30, 1e30, 1e-6, 1e-5, std::log(X))
ACC(log, f64, 1e-30, 1e30, 1e-12, 1e-12, std::log(X))
ACC(log2, f32, 1e-30, 1e30, 1e-6, 1e-5, std::log2(X))
ACC(log2, f64, 1e-30, 1e30, 1e-12, 1e-12, std::log2(X))
ACC(log10, f32, 1e-30, 1e30, 1e-6, 1e-5, std::log10(X))
ACC(log10, f64, 1e-30, 1e30, 1e-12, 1e-12, std::log10(X))
BOTH(cbrt, 0.001, 1000, 1e-6, 1e-5, 1e-13, 1e-12, std::cbrt(X))
BOTHN(cbrtneg, kfr::cbrt(x), -1000, -0.001, 1e-6, 1e-5, 1e-13, 1e-12, std::cbrt(X))
BOTHN(powhalf, kfr::pow(x, T(0.5)), 0.001, 1000, 1e-37, 1e-4, 0, 1e-11, std::sqrt(X))
BOTHN(pow2_7, kfr::pow(x, T(2.75)), 0.01, 100, 1e-37, 1e-4, 0, 1e-11, std::pow(X, 2.75))
BOTHN(pown1_5, kfr::pow(x, T(-1.5)), 0.01, 100, 1e-37, 1e-4, 0, 1e-11, std::pow(X, -1.5))
BOTHN(pow3, kfr::pow(x, T(3)), -10, -0.01, 1e-37, 1e-4, 0, 1e-12, X * X * X)
BOTHN(pow3p, kfr::pow(x, T(3)), 0.01, 10, 1e-37, 1e-4, 0, 1e-12, X * X * X)
BOTHN(powm2, kfr::pow(x, T(-2)), -10, -0.1, 1e-37, 1e-4, 0, 1e-12, 1 / (X * X))
BOTHN(pow_y2, kfr::pow(T(2), x), 0.05, 0.95, 1e-37, 1e-4, 0, 1e-12, std::pow(2.0, X))
BOTHN(pow_y3, kfr::pow(T(3.5), x), -1.95, -1.05, 1e-37, 1e-4, 0, 1e-12, std::pow(3.5, X))
BOTHN(pow_y01, kfr::pow(T(0.125), x), 4.05, 4.95, 1e-37, 1e-4, 0, 1e-12, std::pow(0.125, X))
BOTHN(root2, kfr::root(x, T(2)), 0.01, 100, 1e-37, 1e-4, 0, 1e-12, std::sqrt(X))
BOTHN(root3neg, kfr::root(x, T(3)), -100, -0.01, 1e-37, 1e-4, 0, 1e-12, std::cbrt(X))
BOTHN(root2_5, kfr::root(x, T(2.5)), 0.01, 100, 1e-37, 1e-4, 0, 1e-12, std::pow(X, 0.4))
BOTH2(logn, kfr::logn(x, y), 0.25, 0.9, 2, 4, 1e-6, 1e-5, 1e-11, 1e-11, std::log(X) / std::log(Y))
BOTHN(logn10, kfr::logn(x, T(10)), 0.1, 1000, 1e-6, 1e-5, 1e-11, 1e-11, std::log10(X))
BOTH2(logm, kfr::logm(x, y), 1.5, 4, 0.5, 3, 1e-5, 1e-5, 1e-11, 1e-11, std::log(X) * Y)
BOTH2(exp_fmadd, kfr::exp_fmadd(x, y, T(0.5)), 0.5, 1.5, -1, 1, 1e-37, 1e-4, 0, 1e-11, std::exp(X * Y + 0.5))
BOTH2(log_fmadd, kfr::log_fmadd(x, y, T(0.5)), 1.5, 4, 0.5, 3, 1e-5, 1e-5, 1e-11, 1e-11, std::log(X) * Y + 0.5)
BOTH(sinh, -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::sinh(X))
BOTH(cosh, -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::cosh(X))
BOTH(tanh, -30, 30, 1e-5, 1e-5, 1e-12, 1e-12, std::tanh(X))
BOTHN(coth, kfr::coth(x), 0.1, 30, 1e-5, 1e-5, 1e-12, 1e-12, std::cosh(X) / std::sinh(X))
BOTHN(cothneg, kfr::coth(x), -30, -0.1, 1e-5, 1e-5, 1e-12, 1e-12, std::cosh(X) / std::sinh(X))
BOTHN(sinhcosh0, (kfr::sinhcosh(vec<T, 2>(x, T(1)))[0]), -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::sinh(X))
BOTHN(sinhcosh1, (kfr::sinhcosh(vec<T, 2>(T(1), x))[1]), -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::cosh(X))
BOTHN(coshsinh0, (kfr::coshsinh(vec<T, 2>(x, T(1)))[0]), -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::cosh(X))
BOTHN(coshsinh1, (kfr::coshsinh(vec<T, 2>(T(1), x))[1]), -20, 20, 1e-5, 1e-5, 1e-12, 1e-12, std::sinh(X))
BOTHN(exp_lane, (kfr::exp(vec<T, 4>(T(2.5), T(-40), x, T(0.1)))[2]), -80, 80, 1e-37, 1e-5, 0, 1e-12, std::exp(X))
BOTHN(log_lane, (kfr::log(vec<T, 4>(T(2.5), T(40), x, T(0.1)))[2]), 0.01, 1000, 1e-6, 1e-5, 1e-12, 1e-12, std::log(X))
BOTHN(pow_lane, (kfr::pow(vec<T, 4>(T(2.5), T(-3), x, T(0.1)), vec<T, 4>(T(2.5), T(3), T(2.75), T(-1)))[2]), 0.01, 100, 1e-37, 1e-4, 0, 1e-11, std::pow(X, 2.75))
BOTHN(tanh_lane, (kfr::tanh(vec<T, 4>(T(2.5), T(4), x, T(0.1)))[2]), -30, 30, 1e-5, 1e-5, 1e-12, 1e-12, std::tanh(X))
BOTHN(cbrt_lane, (kfr::cbrt(vec<T, 4>(T(2.5), T(4), x, T(0.1)))[2]), 0.001, 1000, 1e-6, 1e-5, 1e-13, 1e-12, std::cbrt(X))
// units
BOTHN(amp_to_dB, kfr::amp_to_dB(x), 1e-8, 1e8, 1e-4, 1e-5, 1e-11, 1e-11, 20 * std::log10(X))
BOTHN(amp_to_dBn, kfr::amp_to_dB(x), -1e8, -1e-8, 1e-4, 1e-5, 1e-11, 1e-11, 20 * std::log10(-X))
BOTHN(amp_to_dBo, kfr::intrinsics::amp_to_dB(x, T(6)), 1e-8, 1e8, 1e-4, 1e-5, 1e-11, 1e-11, 20 * std::log10(X) + 6)
BOTH(dB_to_amp, -200, 200, 1e-37, 1e-4, 0, 1e-11, std::pow(10.0, X / 20))
BOTHN(dB_to_ampo, kfr::intrinsics::dB_to_amp(x, T(6)), -200, 200, 1e-37, 1e-4, 0, 1e-11, std::pow(10.0, (X - 6) / 20))
BOTH(power_to_dB, 1e-8, 1e8, 1e-4, 1e-5, 1e-11, 1e-11, 10 * std::log10(X))
BOTHN(power_to_dBn, kfr::power_to_dB(x), -1e8, -1e-8, 1e-4, 1e-5, 1e-11, 1e-11, 10 * std::log10(-X))
BOTH(dB_to_power, -200, 200, 1e-37, 1e-4, 0, 1e-11, std::pow(10.0, X / 10))
BOTH(note_to_hertz, 0, 127, 1e-37, 1e-4, 0, 1e-11, 440 * std::exp2((X - 69) / 12))
BOTH(hertz_to_note, 8, 20000, 1e-4, 1e-5, 1e-11, 1e-11, 69 + 12 * std::log2(X / 440))
BOTHN(note_tuned, kfr::intrinsics::note_to_hertz(x, T(60), T(256)), 0, 127, 1e-37, 1e-4, 0, 1e-11, 256 * std::exp2((X - 60) / 12))
BOTHN(hertz_tuned, kfr::intrinsics::hertz_to_note(x, T(60), T(256)), 8, 20000, 1e-3, 1e-5, 1e-11, 1e-11, 60 + 12 * std::log2(X / 256))
// special values
template <typename T> static void special()
{
    // infinity and NaN arrive at run time
    volatile T iv = inf_<T>(), nv = nan_<T>();
    const T i = iv, n = nv, d = std::numeric_limits<T>::denorm_min();
    const double e = sizeof(T) == 4 ? 1e-5 : 1e-13;
    auto near = [&](T a, double b, const char* m) { sym::check(std::fabs((double)a - b) <= e * (1 + std::fabs(b)), m); };
    sym::check(kfr::exp(T(0)) == 1 && kfr::exp2(T(0)) == 1 && kfr::exp10(T(0)) == 1, "exp(0)");
    sym::check(kfr::exp(i) == i && kfr::exp(-i) == 0 && sym::isnan_(kfr::exp(n)), "exp of inf and NaN");
    sym::check(kfr::exp(T(1e30)) == i && kfr::exp(T(-1e30)) == 0 && kfr::exp(T(1000)) == i && kfr::exp(T(-1000)) == 0, "exp overflow and underflow");
    sym::check(kfr::log(T(1)) == 0 && kfr::log(T(0)) == -i && kfr::log(i) == i, "log of 1, 0, inf");
    sym::check(sym::isnan_(kfr::log(T(-1))) && sym::isnan_(kfr::log(n)) && sym::isnan_(kfr::log(-i)), "log of negative and NaN");
    near(kfr::log(d * 3), std::log((double)(d * 3)), "log of a small denormal");
    near(kfr::log(d * 1000), std::log((double)(d * 1000)), "log of a denormal");
    near(kfr::log2(d * 3), std::log2((double)(d * 3)), "log2 of a small denormal"), near(kfr::log10(T(1000)), 3, "log10(1000)");
    sym::check(kfr::pow(T(2.5), T(0)) == 1 && kfr::pow(T(0), T(0)) == 1 && kfr::pow(T(-3), T(0)) == 1, "x^0");
    sym::check(kfr::pow(T(0), T(2)) == 0 && kfr::pow(T(0), T(0.5)) == 0 && kfr::pow(T(0), T(-1)) == i, "0^y");
    sym::check(sym::isnan_(kfr::pow(T(-2), T(0.5))), "negative to a fraction");
    near(kfr::pow(T(-2), T(3)), -8, "(-2)^3"), near(kfr::pow(T(-2), T(4)), 16, "(-2)^4"), near(kfr::pow(T(-2), T(-3)), -0.125, "(-2)^-3");
    near(kfr::pow(T(2), 10), 1024, "2^10"), near(kfr::pow(T(-1.5), 3), -3.375, "(-1.5)^3"), near(kfr::pow(T(1), T(100)), 1, "1^y");
    near(kfr::root(T(27), T(3)), 3, "root 3 of 27"), near(kfr::root(T(16), T(4)), 2, "root 4 of 16"), near(kfr::cbrt(T(-8)), -2, "cbrt(-8)");
    sym::check(kfr::cbrt(T(0)) == 0, "cbrt(0)");
    sym::check(kfr::tanh(i) == 1 && kfr::tanh(-i) == -1 && kfr::tanh(T(1000)) == 1 && kfr::tanh(T(-1000)) == -1 && kfr::tanh(T(0)) == 0, "tanh limits");
    sym::check(kfr::coth(T(1000)) == 1 && kfr::coth(T(-1000)) == -1, "coth limits");
    sym::check(kfr::sinh(T(0)) == 0 && kfr::cosh(T(0)) == 1 && kfr::cosh(i) == i && kfr::sinh(i) == i && kfr::sinh(-i) == -i && kfr::cosh(-i) == i, "sinh, cosh limits");
    sym::check(kfr::amp_to_dB(T(0)) == -i && kfr::dB_to_amp(-i) == 0 && kfr::amp_to_dB(T(1)) == 0 && kfr::dB_to_amp(T(0)) == 1, "decibels of zero");
    sym::check(kfr::power_to_dB(T(0)) == -i && kfr::dB_to_power(-i) == 0 && kfr::power_to_dB(T(1)) == 0 && kfr::dB_to_power(T(0)) == 1, "power decibels of zero");
    near(kfr::note_to_hertz(T(69)), 440, "note 69"), near(kfr::hertz_to_note(T(440)), 69, "440 Hz");
    sym::check(kfr::logb(T(8)) == 3 && kfr::logb(T(0.25)) == -2 && kfr::logb(T(7.9)) == 2, "logb");
}
ENTRY(special_f32) { special<f32>(); }
ENTRY(special_f64) { special<f64>(); }
ENTRY(integers)
{
    auto near = [&](double a, double b, const char* m) { sym::check(std::fabs(a - b) <= 1e-5 * (1 + std::fabs(b)), m); };
    near(kfr::exp(2), std::exp(2.0), "exp(int)"), near(kfr::log(7), std::log(7.0), "log(int)"), near(kfr::log2(8), 3, "log2(int)"), near(kfr::log10(100), 2, "log10(int)");
    near(kfr::exp2(5), 32, "exp2(int)"), near(kfr::exp10(2), 100, "exp10(int)"), near(kfr::tanh(1), std::tanh(1.0), "tanh(int)"), near(kfr::sinh(1), std::sinh(1.0), "sinh(int)");
    near(kfr::pow(2, 3), 8, "pow(int,int)"), near(kfr::amp_to_dB(10), 20, "amp_to_dB(int)"), near(kfr::dB_to_amp(20), 10, "dB_to_amp(int)"), near(kfr::note_to_hertz(69), 440, "note(int)");
}
// split: x = mantissa * 2^exponent
ENTRY(logb_f32) { f32 x = sym::any<f32>("x"); __sym_assume(x >= 1.17549435e-38f && x <= 3e38f); int e = (int)((sym::bits(x) >> 23) & 255) - 127; sym::check(kfr::logb(x) == (f32)e, "logb"); }
ENTRY(logb_f64) { f64 x = sym::any<f64>("x"); __sym_assume(x >= 2.3e-308 && x <= 1e308); int e = (int)((sym::bits(x) >> 52) & 2047) - 1023; sym::check(kfr::logb(x) == (f64)e, "logb"); }
