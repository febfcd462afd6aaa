// P16: trigonometric functions against the mathematical functions (adaptive Taylor models of the library's bit-level code).
#include "mathdef.h"
BOTH(sin, -100, 100, 1e-5, 0, 1e-12, 0, std::sin(X))
BOTH(cos, -100, 100, 1e-5, 0, 1e-12, 0, std::cos(X))
BOTHN(sin_far, kfr::sin(x), 100, 1000, 2e-4, 0, 1e-11, 0, std::sin(X))
BOTHN(cos_far, kfr::cos(x), -1000, -100, 2e-4, 0, 1e-11, 0, std::cos(X))
// away from the poles, in three periods
BOTH(tan, -1.5, 1.5, 1e-6, 1e-5, 1e-12, 1e-11, std::tan(X))
BOTHN(tan_p30, kfr::tan(x), 92.747, 95.74, 1e-4, 1e-3, 1e-11, 1e-10, std::tan(X))
BOTHN(tan_n7, kfr::tan(x), -23.49, -20.492, 1e-4, 1e-3, 1e-11, 1e-10, std::tan(X))
BOTHN(tandeg, kfr::tandeg(x), -80, 80, 1e-6, 1e-5, 1e-12, 1e-10, std::tan(X * deg))
BOTH(sindeg, -720, 720, 1e-5, 0, 1e-12, 0, std::sin(X * deg))
BOTH(cosdeg, -720, 720, 1e-5, 0, 1e-12, 0, std::cos(X * deg))
BOTH(fastsin, 0, 6.283, 1e-3, 0, 1e-3, 0, std::sin(X))
BOTH(fastcos, 0, 6.283, 1e-3, 0, 1e-3, 0, std::cos(X))
BOTH(fastsindeg, 0, 359, 1e-3, 0, 1e-3, 0, std::sin(X * deg))
BOTH(fastcosdeg, 0, 359, 1e-3, 0, 1e-3, 0, std::cos(X * deg))
BOTHN(sinc, kfr::sinc(x), 0.001, 50, 1e-6, 1e-5, 1e-12, 1e-12, std::sin(X) / X)
BOTHN(sincneg, kfr::sinc(x), -50, -0.001, 1e-6, 1e-5, 1e-12, 1e-12, std::sin(X) / X)
BOTH(atan, -100, 100, 1e-6, 1e-5, 1e-13, 1e-13, std::atan(X))
BOTH(atandeg, -100, 100, 1e-5, 1e-5, 1e-12, 1e-12, std::atan(X) / deg)
BOTH(asin, -0.999, 0.999, 1e-5, 1e-5, 1e-12, 1e-12, std::asin(X))
BOTH(acos, -0.999, 0.999, 1e-5, 1e-5, 1e-12, 1e-12, std::acos(X))
BOTH2(atan2q1, kfr::atan2(y, x), 0.5, 4, 0.5, 4, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2q2, kfr::atan2(y, x), -4, -0.5, 0.5, 4, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2q3, kfr::atan2(y, x), -4, -0.5, -4, -0.5, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2q4, kfr::atan2(y, x), 0.5, 4, -4, -0.5, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
namespace wq1 { using T = f32; ACC2(atan2wideq1, kfr::atan2(y, x), f32, 0.05, 20, 0.05, 20, 1e-5, 1e-5, std::atan2(Y, X)) }
namespace wq2 { using T = f32; ACC2(atan2wideq2, kfr::atan2(y, x), f32, -20, -0.05, 0.05, 20, 1e-5, 1e-5, std::atan2(Y, X)) }
namespace wq3 { using T = f32; ACC2(atan2wideq3, kfr::atan2(y, x), f32, -20, -0.05, -20, -0.05, 1e-5, 1e-5, std::atan2(Y, X)) }
namespace wq4 { using T = f32; ACC2(atan2wideq4, kfr::atan2(y, x), f32, 0.05, 20, -20, -0.05, 1e-5, 1e-5, std::atan2(Y, X)) }
BOTH2(atan2deg, kfr::atan2deg(y, x), 0.5, 4, 0.5, 4, 1e-5, 1e-5, 1e-10, 1e-10, std::atan2(Y, X) / deg)
BOTH2(atan2right, kfr::atan2(y, x), 1, 4, -1, 1, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2up, kfr::atan2(y, x), 0.01, 1, 1, 4, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2upl, kfr::atan2(y, x), -1, -0.01, 1, 4, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2down, kfr::atan2(y, x), 0.01, 1, -4, -1, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
BOTH2(atan2downl, kfr::atan2(y, x), -1, -0.01, -4, -1, 1e-6, 1e-5, 1e-10, 1e-10, std::atan2(Y, X))
// vectors of alternating functions: the lane is the second one, the first holds a constant
BOTHN(sincos0, (kfr::sincos(vec<T, 2>(x, T(1)))[0]), -100, 100, 1e-5, 0, 1e-12, 0, std::sin(X))
BOTHN(sincos1, (kfr::sincos(vec<T, 2>(T(1), x))[1]), -100, 100, 1e-5, 0, 1e-12, 0, std::cos(X))
BOTHN(cossin0, (kfr::cossin(vec<T, 2>(x, T(1)))[0]), -100, 100, 1e-5, 0, 1e-12, 0, std::cos(X))
BOTHN(cossin1, (kfr::cossin(vec<T, 2>(T(1), x))[1]), -100, 100, 1e-5, 0, 1e-12, 0, std::sin(X))
BOTHN(sincosdeg0, (kfr::sincosdeg(vec<T, 2>(x, T(1)))[0]), -720, 720, 1e-5, 0, 1e-12, 0, std::sin(X * deg))
BOTHN(sincosdeg1, (kfr::sincosdeg(vec<T, 2>(T(1), x))[1]), -720, 720, 1e-5, 0, 1e-12, 0, std::cos(X * deg))
BOTHN(cossindeg0, (kfr::cossindeg(vec<T, 2>(x, T(1)))[0]), -720, 720, 1e-5, 0, 1e-12, 0, std::cos(X * deg))
BOTHN(cossindeg1, (kfr::cossindeg(vec<T, 2>(T(1), x))[1]), -720, 720, 1e-5, 0, 1e-12, 0, std::sin(X * deg))
// a lane of a full vector whose other lanes hold something else
BOTHN(sin_lane, (kfr::sin(vec<T, 4>(T(2.5), T(-40), x, T(0.1)))[2]), -100, 100, 1e-5, 0, 1e-12, 0, std::sin(X))
BOTHN(cos_lane, (kfr::cos(vec<T, 8>(T(2.5), T(-40), T(7), T(0.1), T(1), T(2), T(3), x))[7]), -100, 100, 1e-5, 0, 1e-12, 0, std::cos(X))
BOTHN(tan_lane, (kfr::tan(vec<T, 4>(T(2.5), x, T(1), T(0.1)))[1]), -1.5, 1.5, 1e-6, 1e-5, 1e-12, 1e-11, std::tan(X))
BOTHN(atan_lane, (kfr::atan(vec<T, 4>(T(2.5), T(-40), x, T(0.1)))[2]), -100, 100, 1e-6, 1e-5, 1e-13, 1e-13, std::atan(X))
BOTHN(asin_lane, (kfr::asin(vec<T, 4>(T(0.5), T(-0.4), x, T(0.1)))[2]), -0.999, 0.999, 1e-5, 1e-5, 1e-12, 1e-12, std::asin(X))
BOTHN(sinc_lane, (kfr::sinc(vec<T, 4>(T(0), x, T(1), T(2)))[1]), 0.001, 50, 1e-6, 1e-5, 1e-12, 1e-12, std::sin(X) / X)
// an element of an expression
BOTHN(sin_expr, kfr::get_elements(kfr::sin(kfr::scalar(x)), shape<0>{}, axis_params_v<0, 1>)[0], -100, 100, 1e-5, 0, 1e-12, 0, std::sin(X))
// multiple angles
BOTHN(sin2x, kfr::sin2x(kfr::sin(x), kfr::cos(x)), -10, 10, 1e-5, 0, 1e-12, 0, std::sin(2 * X))
BOTHN(sin3x, kfr::sin3x(kfr::sin(x), kfr::cos(x)), -10, 10, 1e-5, 0, 1e-12, 0, std::sin(3 * X))
BOTHN(cos2x, kfr::cos2x(kfr::sin(x), kfr::cos(x)), -10, 10, 1e-5, 0, 1e-12, 0, std::cos(2 * X))
BOTHN(cos3x, kfr::cos3x(kfr::sin(x), kfr::cos(x)), -10, 10, 1e-5, 0, 1e-12, 0, std::cos(3 * X))
// special values
template <typename T> static void special()
{
    // infinity and NaN arrive at run time
    volatile T iv = inf_<T>(), nv = nan_<T>();
    const T i = iv, n = nv;
    const double pi = 3.14159265358979323846, e = sizeof(T) == 4 ? 1e-6 : 1e-15;
    auto near = [&](T a, double b, const char* m) { sym::check(std::fabs((double)a - b) <= e * 4, m); };
    sym::check(kfr::sin(T(0)) == 0 && kfr::cos(T(0)) == 1 && kfr::tan(T(0)) == 0 && kfr::sinc(T(0)) == 1, "at zero");
    sym::check(kfr::asin(T(0)) == 0 && kfr::atan(T(0)) == 0 && kfr::atan2(T(0), T(1)) == 0, "inverse at zero");
    near(kfr::asin(T(1)), pi / 2, "asin(1)"), near(kfr::asin(T(-1)), -pi / 2, "asin(-1)");
    near(kfr::acos(T(1)), 0, "acos(1)"), near(kfr::acos(T(-1)), pi, "acos(-1)"), near(kfr::acos(T(0)), pi / 2, "acos(0)");
    near(kfr::atan(i), pi / 2, "atan(inf)"), near(kfr::atan(-i), -pi / 2, "atan(-inf)");
    near(kfr::atan2(T(1), T(0)), pi / 2, "atan2(1,0)"), near(kfr::atan2(T(-1), T(0)), -pi / 2, "atan2(-1,0)");
    near(kfr::atan2(T(0), T(-1)), pi, "atan2(0,-1)"), near(kfr::atan2(T(0), T(0)), 0, "atan2(0,0)");
    near(kfr::atan2(i, i), pi / 4, "atan2(inf,inf)"), near(kfr::atan2(i, -i), 3 * pi / 4, "atan2(inf,-inf)");
    near(kfr::atan2(-i, i), -pi / 4, "atan2(-inf,inf)"), near(kfr::atan2(-i, -i), -3 * pi / 4, "atan2(-inf,-inf)");
    near(kfr::atan2(i, T(1)), pi / 2, "atan2(inf,1)"), near(kfr::atan2(T(1), i), 0, "atan2(1,inf)"), near(kfr::atan2(T(1), -i), pi, "atan2(1,-inf)");
    sym::check(sym::isnan_(kfr::sin(n)) && sym::isnan_(kfr::cos(n)) && sym::isnan_(kfr::tan(n)) && sym::isnan_(kfr::atan(n)), "NaN");
}
ENTRY(special_f32) { special<f32>(); }
ENTRY(special_f64) { special<f64>(); }
// integers are converted to floating point
ENTRY(integers)
{
    sym::check(std::fabs(kfr::sin(1) - std::sin(1.0)) < 1e-6 && std::fabs(kfr::cos(2) - std::cos(2.0)) < 1e-6, "sin/cos of int");
    sym::check(std::fabs(kfr::asin(1) - std::asin(1.0)) < 1e-6 && std::fabs(kfr::acos(0) - std::acos(0.0)) < 1e-6, "asin/acos of int");
    sym::check(std::fabs(kfr::tan(1) - std::tan(1.0)) < 1e-6 && std::fabs(kfr::sinc(2) - std::sin(2.0) / 2) < 1e-6, "tan/sinc of int");
}
