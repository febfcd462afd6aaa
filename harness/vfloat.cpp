// Floating-point vectors: every operation equals the scalar IEEE operation on each lane, for every width and bit pattern.
#include "sym.h"
#include <kfr/base.hpp>
using namespace kfr;
template <typename T, size_t N>
static vec<T, N> in(T (&a)[N], const char* n)
{
    vec<T, N> v;
    for (size_t i = 0; i < N; i++) { a[i] = sym::any<T>(n); v[i] = a[i]; }
    return v;
}
template <typename T> using B = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
template <typename T> static B<T> bits(T a) { B<T> u; memcpy(&u, &a, sizeof(T)); return u; }
template <typename T> static T mk(B<T> u) { T a; memcpy(&a, &u, sizeof(T)); return a; }
template <typename T> constexpr B<T> SB = B<T>(1) << (sizeof(T) * 8 - 1);
template <typename T> static T fabs_(T a) { return mk<T>(bits(a) & ~SB<T>); }
template <typename T> static T sel(bool c, T a, T b) { B<T> m = B<T>(0) - B<T>(c); return mk<T>((bits(a) & m) | (bits(b) & ~m)); }
template <typename T> static bool nan_(T a) { return sym::isnan_(a); }
template <typename X, typename Y> static bool eq(const X& a, const Y& b)
{
    if constexpr (std::is_same_v<Y, bool>) return (bool)a == b;
    else return sym::same<Y>((Y)a, b);
}
template <typename X, typename Y> static bool eqz(const X& a, const Y& b) { return sym::samez<Y>((Y)a, b); }
#define LANE1(r, e, msg) { auto rr = (r); for (size_t i = 0; i < N; i++) sym::check(eq((typename decltype(rr)::value_type)rr[i], (e)), msg); }
#define LANEZ(r, e, msg) { auto rr = (r); for (size_t i = 0; i < N; i++) sym::check(eqz((typename decltype(rr)::value_type)rr[i], (e)), msg); }
#define LANEC(r, c, msg) { auto rr = (r); for (size_t i = 0; i < N; i++) { T q = (T)rr[i]; (void)q; sym::check((c), msg); } }

template <typename T, size_t N>
static __attribute__((noinline)) void arith()
{
    T a[N], b[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b");
    LANE1(x + y, a[i] + b[i], "add");
    LANE1(x - y, a[i] - b[i], "sub");
    LANE1(x * y, a[i] * b[i], "mul");
    LANE1(x / y, a[i] / b[i], "div");
    LANE1(-x, mk<T>(bits(a[i]) ^ SB<T>), "neg");
    LANE1(abs(x), fabs_(a[i]), "abs");
    LANE1(x & y, mk<T>(bits(a[i]) & bits(b[i])), "and");
    LANE1(x | y, mk<T>(bits(a[i]) | bits(b[i])), "or");
    LANE1(x ^ y, mk<T>(bits(a[i]) ^ bits(b[i])), "xor");
    LANE1(~x, mk<T>(~bits(a[i])), "not");
    LANE1(x + b[0], a[i] + b[0], "add scalar");
    LANE1(b[0] / x, b[0] / a[i], "scalar div");
    LANE1(mulsign(x, y), mk<T>(bits(a[i]) ^ (bits(b[i]) & SB<T>)), "mulsign");
    LANE1(copysign(x, y), mk<T>((bits(a[i]) & ~SB<T>) | (bits(b[i]) & SB<T>)), "copysign");
    LANE1(negeven(x), (i % 2 == 0 ? mk<T>(bits(a[i]) ^ SB<T>) : a[i]), "negeven");
    LANE1(negodd(x), (i % 2 == 1 ? mk<T>(bits(a[i]) ^ SB<T>) : a[i]), "negodd");
    LANE1(sqr(x), a[i] * a[i], "sqr");
    LANE1(kfr::sqrt(x), std::sqrt(a[i]), "sqrt");
    LANE1(reciprocal(x), T(1) / a[i], "reciprocal");
    if constexpr (N >= 2)
    {
        LANE1(subadd(x, y), (i % 2 == 0 ? a[i] - b[i] : a[i] + b[i]), "subadd");
        LANE1(addsub(x, y), (i % 2 == 0 ? a[i] + b[i] : a[i] - b[i]), "addsub");
    }
    vec<T, N> z = x;
    z += y; z -= a[0]; z /= x; z *= y;
    LANE1(z, (((a[i] + b[i]) - a[0]) / a[i]) * b[i], "compound assignment");
}
template <typename T, size_t N>
static __attribute__((noinline)) void order()
{
    T a[N], b[N], c[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b"), z = in<T, N>(c, "c");
    LANE1(x == y, (a[i] == b[i]), "equal");
    LANE1(x != y, (a[i] != b[i]), "not equal");
    LANE1(x < y, (a[i] < b[i]), "less");
    LANE1(x > y, (a[i] > b[i]), "greater");
    LANE1(x <= y, (a[i] <= b[i]), "less or equal");
    LANE1(x >= y, (a[i] >= b[i]), "greater or equal");
    LANE1((x < y) && (y < z), bool((a[i] < b[i]) & (b[i] < c[i])), "mask and");
    LANE1((x < y) || (y < z), bool((a[i] < b[i]) | (b[i] < c[i])), "mask or");
    LANE1(~(x < y), !(a[i] < b[i]), "mask not");
    LANE1(!(x < y), !(a[i] < b[i]), "mask logical not");
    LANE1(select(x < y, y, z), (a[i] < b[i] ? b[i] : c[i]), "select");
    LANE1(select(x == y, x, c[0]), (a[i] == b[i] ? a[i] : c[0]), "select with scalar");
    LANE1(select(x >= y, c[0], x), (a[i] >= b[i] ? c[0] : a[i]), "select with scalar first");
    LANE1(isnan(x), nan_(a[i]), "isnan");
    LANE1(isinf(x), bool(fabs_(a[i]) == std::numeric_limits<T>::infinity()), "isinf");
    LANE1(isfinite(x), bool(fabs_(a[i]) < std::numeric_limits<T>::infinity()), "isfinite");
    LANE1(isnegative(x), bool((bits(a[i]) & SB<T>) != 0), "isnegative");
    LANE1(ispositive(x), bool((bits(a[i]) & SB<T>) == 0), "ispositive");
    LANE1(iszero(x), (a[i] == 0), "iszero");
    LANE1(inrange(x, y, z), bool((a[i] >= b[i]) & (a[i] <= c[i])), "inrange");
    bool al = true, an = false;
    for (size_t i = 0; i < N; i++) { al &= a[i] < b[i]; an |= a[i] < b[i]; }
    sym::check(all(x < y) == al, "all");
    sym::check(any(x < y) == an, "any");
}
template <typename T, size_t N>
static __attribute__((noinline)) void minmax()
{
    T a[N], b[N], c[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b"), z = in<T, N>(c, "c");
    // a NaN operand: one of the two operands comes back
    auto lo = [](T p, T q, T r) { return sym::samez(r, sel(p < q, p, q)) | (nan_(p) | nan_(q)) & (sym::samez(r, p) | sym::samez(r, q)); };
    auto hi = [](T p, T q, T r) { return sym::samez(r, sel(p > q, p, q)) | (nan_(p) | nan_(q)) & (sym::samez(r, p) | sym::samez(r, q)); };
    LANEC(min(x, y), lo(a[i], b[i], q), "min");
    LANEC(max(x, y), hi(a[i], b[i], q), "max");
    LANEC(min(x, b[0]), lo(a[i], b[0], q), "min with scalar");
    LANEC(max(x, b[0]), hi(a[i], b[0], q), "max with scalar");
    sym::check(lo(a[0], b[0], min(a[0], b[0])), "min of scalars");
    sym::check(hi(a[0], b[0], max(a[0], b[0])), "max of scalars");
    LANEC(absmin(x, y), lo(fabs_(a[i]), fabs_(b[i]), q), "absmin");
    LANEC(absmax(x, y), hi(fabs_(a[i]), fabs_(b[i]), q), "absmax");
    for (size_t i = 0; i < N; i++) { sym::assume(!nan_(a[i])); sym::assume(b[i] <= c[i]); }
    LANEZ(clamp(x, y, z), sel(a[i] < b[i], b[i], sel(a[i] > c[i], c[i], a[i])), "clamp");
    for (size_t i = 0; i < N; i++) sym::assume(c[i] >= 0);
    LANEZ(clamp(x, z), sel(a[i] < 0, T(0), sel(a[i] > c[i], c[i], a[i])), "clamp to zero");
}
// a value of every sign and mantissa; its exponent is explored case by case
template <typename T>
static T anyexp(const char* n, bool few, bool neg)
{
    constexpr int M = sizeof(T) == 4 ? 23 : 52, bias = sizeof(T) == 4 ? 127 : 1023;
    B<T> u = sym::any<B<T>>(n) & ~SB<T>;
    if (neg) u |= SB<T>;
    B<T> e = (u >> M) & ((B<T>(1) << (sizeof(T) * 8 - 1 - M)) - 1);
    uint64_t c = sym::pick("exponent case", 0, M + 4);
    if (few) sym::assume((c <= 2) | (c == M / 2) | (c >= M));
    if (c == 0) sym::assume(e <= B<T>(bias - 2));
    else if (c == M + 4) sym::assume(e >= B<T>(bias + M + 2));
    else
    {
        sym::assume(e == B<T>(bias - 2 + c));
        u = (u & (((B<T>(1) << M) - 1) | SB<T>)) | (B<T>(bias - 2 + c) << M);
    }
    return mk<T>(u);
}
template <typename T, size_t N, bool NEG>
static __attribute__((noinline)) void rounding()
{
    // one lane holds any value, the others fixed ones
    const size_t p = sym::pick("lane", 0, N - 1);
    T a[N];
    vec<T, N> x;
    for (size_t i = 0; i < N; i++) { a[i] = i == p ? anyexp<T>("a", !THOROUGH, NEG) : T(0.75) * (T)i - T(1.5); x[i] = a[i]; }
    LANEZ(floor(x), std::floor(a[i]), "floor");
    LANEZ(ceil(x), std::ceil(a[i]), "ceil");
    LANEZ(trunc(x), std::trunc(a[i]), "trunc");
    LANEZ(fract(x), a[i] - std::floor(a[i]), "fract");
    // ties may go to even or away from zero
    LANEC(round(x), (eqz(q, std::rint(a[i])) | eqz(q, std::round(a[i]))), "round");
    if (p == 0)
    {
        sym::check(eqz(floor(a[0]), std::floor(a[0])), "floor of a scalar");
        sym::check(eqz(ceil(a[0]), std::ceil(a[0])), "ceil of a scalar");
        sym::check(eqz(trunc(a[0]), std::trunc(a[0])), "trunc of a scalar");
        sym::check(eqz(round(a[0]), std::rint(a[0])) | eqz(round(a[0]), std::round(a[0])), "round of a scalar");
    }
    using I = std::conditional_t<sizeof(T) == 4, i32, i64>;
    const T lim = sizeof(T) == 4 ? T(2147483520.) : T(9223372036854774784.);
    sym::assume(a[p] <= lim); sym::assume(a[p] >= -lim);
    LANE1(ifloor(x), (I)std::floor(a[i]), "ifloor");
    LANE1(iceil(x), (I)std::ceil(a[i]), "iceil");
    LANE1(itrunc(x), (I)std::trunc(a[i]), "itrunc");
    { auto rr = iround(x); for (size_t i = 0; i < N; i++) sym::check(((I)rr[i] == (I)std::rint(a[i])) | ((I)rr[i] == (I)std::round(a[i])), "iround"); }
}
template <typename T, size_t N>
static __attribute__((noinline)) void horiz()
{
    T a[N], b[N];
    vec<T, N> x, y;
    double s[N], one[N];
    for (size_t i = 0; i < N; i++) { a[i] = sym::ranged<T>("a", -1, 1); b[i] = sym::ranged<T>("b", -1, 1); x[i] = a[i]; y[i] = b[i]; s[i] = a[i]; one[i] = 1; }
    double tol = 8 * N * (sizeof(T) == 4 ? 6e-8 : 1.2e-16);
    __sym_close_lin(hadd(x), s, one, N, tol, "horizontal add");
    __sym_close_lin(hsum(x), s, one, N, tol, "horizontal sum");
    for (size_t i = 0; i < N; i++) one[i] = 1. / N;
    __sym_close_lin(havg(x), s, one, N, tol, "average");
    double d = 0, p = 1;
    for (size_t i = 0; i < N; i++) d = __sym_xadd(d, __sym_xmul(a[i], b[i]));
    __sym_close(hdot(x, y), d, tol, "dot product");
    if (N <= 4)
    {
        for (size_t i = 0; i < N; i++) p = __sym_xmul(p, a[i]);
        __sym_close(hmul(x), p, tol, "product");
    }
    // linear blend and polynomials
    T t = sym::ranged<T>("t", 0, 1);
    auto m = mix(vec<T, N>(t), x, y);
    auto ho = horner(x, T(0.5), T(-2), T(3), T(0.25));
    auto he = horner_even(x, T(0.5), T(-2), T(3));
    auto hd = horner_odd(x, T(0.5), T(-2), T(3));
    vec<T, N> c3 = cub(x), c4 = pow4(x), c5 = pow5(x), i6 = ipow(x, 6), i7 = ipow(x, 7), fm = fmadd(x, y, vec<T, N>(t)), fs = fmsub(x, y, vec<T, N>(t));
    for (size_t i = 0; i < N; i++)
    {
        double v = a[i], v2 = __sym_xmul(v, v), v3 = __sym_xmul(v2, v), v4 = __sym_xmul(v2, v2), v5 = __sym_xmul(v4, v);
        auto ad = [](double u, double w) { return __sym_xadd(u, w); };
        auto ml = [](double u, double w) { return __sym_xmul(u, w); };
        double xy = ml(v, b[i]);
        __sym_close((T)fm[i], ad(xy, t), tol, "fmadd");
        __sym_close((T)fs[i], ad(xy, -(double)t), tol, "fmsub");
        __sym_close((T)m[i], ad(v, ml(t, ad(b[i], ml(-1., v)))), tol, "mix");
        double k = 8;
        __sym_close((T)ho[i], ad(ad(0.5, ml(-2., v)), ad(ml(3., v2), ml(0.25, v3))), k * tol, "horner");
        __sym_close((T)he[i], ad(ad(0.5, ml(-2., v2)), ml(3., v4)), k * tol, "horner_even");
        __sym_close((T)hd[i], ad(ad(ml(0.5, v), ml(-2., v3)), ml(3., v5)), k * tol, "horner_odd");
        __sym_close((T)c3[i], v3, tol, "cube");
        __sym_close((T)c4[i], v4, tol, "fourth power");
        __sym_close((T)c5[i], v5, tol, "fifth power");
        __sym_close((T)i6[i], ml(v3, v3), k * tol, "ipow 6");
        __sym_close((T)i7[i], ml(v4, v3), k * tol, "ipow 7");
    }
}
template <typename T, size_t N>
static __attribute__((noinline)) void hminmax()
{
    T a[N];
    vec<T, N> x = in<T, N>(a, "a");
    for (size_t i = 0; i < N; i++) sym::assume(!nan_(a[i]));
    bool mem = false, memx = false, le = true, ge = true;
    T mn = hmin(x), mx = hmax(x);
    for (size_t i = 0; i < N; i++)
    {
        mem |= mn == a[i]; le &= mn <= a[i];
        memx |= mx == a[i]; ge &= mx >= a[i];
    }
    sym::check(mem & le, "horizontal min");
    sym::check(memx & ge, "horizontal max");
}
#define SIZES(f, T) f<T, 1>(); f<T, 3>(); f<T, 16 / sizeof(T)>(); f<T, 16 / sizeof(T) + 1>(); f<T, 32 / sizeof(T)>(); f<T, 64 / sizeof(T)>();
#define OPS(T) ENTRY(arith_##T) { SIZES(arith, T) } ENTRY(order_##T) { SIZES(order, T) } ENTRY(minmax_##T) { SIZES(minmax, T) } ENTRY(rounding1p_##T) { rounding<T, 1, 0>(); } ENTRY(rounding1n_##T) { rounding<T, 1, 1>(); } ENTRY(rounding8p_##T) { rounding<T, 32 / sizeof(T), 0>(); } ENTRY(rounding3n_##T) { rounding<T, 3, 1>(); } \
    ENTRY(hsum_##T) { horiz<T, 1>(); horiz<T, 2>(); horiz<T, 3>(); horiz<T, 4>(); horiz<T, 5>(); horiz<T, 8>(); horiz<T, 16>(); } \
    ENTRY(hminmax_##T) { hminmax<T, 1>(); hminmax<T, 2>(); hminmax<T, 3>(); hminmax<T, 4>(); if (THOROUGH) hminmax<T, 5>(); }
OPS(f32) OPS(f64)

// ---- element type conversion ----
template <typename To, typename From, size_t N>
static __attribute__((noinline)) void conv()
{
    From a[N];
    vec<From, N> x = in<From, N>(a, "a");
    if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>)
    {
        // only values the destination type can hold
        const From hi = (From)std::ldexp(1., (int)sizeof(To) * 8 - (std::is_signed_v<To> ? 1 : 0)), lo = std::is_signed_v<To> ? -hi : From(0);
        for (size_t i = 0; i < N; i++) { sym::assume(a[i] >= lo); sym::assume(a[i] < hi); }
    }
    auto r = broadcastto<To>(x);
    for (size_t i = 0; i < N; i++) sym::check(eq((To)r[i], (To)a[i]), "element conversion");
    auto r2 = cast<To>(x);
    for (size_t i = 0; i < N; i++) sym::check(eq((To)r2[i], (To)a[i]), "element conversion");
    vec<From, N> back = bitcast<From>(bitcast<std::conditional_t<sizeof(From) == 1, u8, std::conditional_t<sizeof(From) == 2, u16, std::conditional_t<sizeof(From) == 4, u32, u64>>>>(x));
    for (size_t i = 0; i < N; i++) sym::check(sym::same<From>((From)back[i], a[i]), "bitcast");
}
#define CONV1(F, T) conv<T, F, 1>(); conv<T, F, 3>(); conv<T, F, 4>(); conv<T, F, 8>(); conv<T, F, 16>();
#define CONV(F) ENTRY(conv_##F) { CONV1(F, i8) CONV1(F, u8) CONV1(F, i16) CONV1(F, u16) CONV1(F, i32) CONV1(F, u32) CONV1(F, i64) CONV1(F, u64) CONV1(F, f32) CONV1(F, f64) }
CONV(i8) CONV(u8) CONV(i16) CONV(u16) CONV(i32) CONV(u32) CONV(i64) CONV(u64) CONV(f32) CONV(f64)
