// P19: random number generator: state sequence, ranges, expressions.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/math.hpp>
#include <vector>
using namespace kfr;

static random_state anystate(u32* x)
{
    random_state s;
    static const char* nm[4] = { "s0", "s1", "s2", "s3" };
    for (int i = 0; i < 4; i++) x[i] = sym::any<u32>(nm[i]);
    s.v = portable_vec<u32, 4>{ x[0], x[1], x[2], x[3] };
    return s;
}
static random_state anystate() { u32 x[4]; return anystate(x); }
// four linear congruential generators, bytes rotated by three
static void next_def(u32* x)
{
    static const u32 mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    u32 y[4];
    for (int i = 0; i < 4; i++) y[i] = x[i] * mul[i] + add[i];
    u8 b[16], c[16];
    memcpy(b, y, 16);
    for (int i = 0; i < 16; i++) c[i] = b[(i + 13) % 16];
    memcpy(x, c, 16);
}
static void same_state(const random_state& s, const u32* x, const char* msg)
{
    u32 v[4];
    memcpy(v, &s, 16);
    for (int i = 0; i < 4; i++) sym::check(v[i] == x[i], msg);
}
template <size_t N>
static void bytes_def(u32* x, u8* out) // definition of random_bits
{
    if constexpr (N <= 16)
    {
        next_def(x);
        memcpy(out, x, N);
    }
    else
    {
        constexpr size_t a = N > 128 ? 128 : N > 64 ? 64 : N > 32 ? 32 : 16;
        bytes_def<a>(x, out);
        bytes_def<N - a>(x, out + a);
    }
}
template <size_t N>
static void bits_test()
{
    u32 x[4];
    random_state s = anystate(x);
    vec<u8, N> r = random_bits<N>(s);
    u8 d[N];
    bytes_def<N>(x, d);
    for (size_t i = 0; i < N; i++) sym::check(r[i] == d[i], "random_bits follows the generator definition");
    same_state(s, x, "random_bits advances the state by the number of blocks used");
}
ENTRY(next)
{
    u32 x[4];
    random_state s = anystate(x);
    for (int i = 0; i < 3; i++)
    {
        random_next(s);
        next_def(x);
        same_state(s, x, "random_next follows its definition");
    }
}
ENTRY(init32)
{
    u32 x[4];
    anystate(x);
    random_state s = random_init(x[0], x[1], x[2], x[3]);
    next_def(x);
    same_state(s, x, "random_init(x0,x1,x2,x3)");
}
ENTRY(init64)
{
    u64 a = sym::any<u64>("a"), b = sym::any<u64>("b");
    random_state s = random_init(a, b);
    u32 x[4] = { (u32)a, (u32)(a >> 32), (u32)b, (u32)(b >> 32) };
    next_def(x);
    same_state(s, x, "random_init(x0,x1)");
}
ENTRY(bits1) { bits_test<1>(); bits_test<2>(); bits_test<3>(); bits_test<4>(); }
ENTRY(bits2) { bits_test<8>(); bits_test<12>(); bits_test<16>(); }
ENTRY(bits3) { bits_test<17>(); bits_test<24>(); bits_test<32>(); }
ENTRY(bits4) { bits_test<40>(); bits_test<48>(); bits_test<64>(); bits_test<128>(); bits_test<256>(); }

template <typename T, size_t N>
static void uniform_int()
{
    u32 x[4];
    random_state s = anystate(x);
    vec<T, N> r = random_uniform<T, N>(s);
    u8 d[N * sizeof(T)];
    bytes_def<N * sizeof(T)>(x, d);
    T e[N];
    memcpy(e, d, sizeof(d));
    for (size_t i = 0; i < N; i++) sym::check(r[i] == e[i], "random_uniform of an integer type is made of all random bits");
}
ENTRY(uniform_ints)
{
    uniform_int<u8, 3>(); uniform_int<i8, 16>(); uniform_int<i16, 4>(); uniform_int<u32, 1>(); uniform_int<i32, 8>(); uniform_int<u64, 2>(); uniform_int<i64, 5>();
}
// in [0,1) and equal to the random mantissa
template <typename T, size_t N>
static void uniform_float()
{
    using U = std::conditional_t<sizeof(T) == 4, u32, u64>;
    u32 x[4];
    random_state s = anystate(x);
    vec<T, N> r = random_uniform<T, N>(s);
    U e[N];
    bytes_def<N * sizeof(T)>(x, (u8*)e);
    const int mb = sizeof(T) == 4 ? 23 : 52;
    for (size_t i = 0; i < N; i++)
    {
        sym::check((r[i] >= 0) & (r[i] < 1), "random_uniform is in [0,1)");
        U m = (U(1) << mb) | (e[i] & ((U(1) << mb) - 1));
        U one = sizeof(T) == 4 ? (U)0x3f800000u : (U)0x3ff0000000000000ull;
        U bitsm = one | (e[i] & ((U(1) << mb) - 1));
        T v;
        memcpy(&v, &bitsm, sizeof(T));
        (void)m;
        sym::check(sym::same<T>(r[i], v - T(1)), "random_uniform takes every multiple of the grid equally often");
    }
}
ENTRY(uniform_f32) { uniform_float<f32, 1>(); uniform_float<f32, 3>(); uniform_float<f32, 4>(); uniform_float<f32, 8>(); }
ENTRY(uniform_f64) { uniform_float<f64, 1>(); uniform_float<f64, 2>(); uniform_float<f64, 5>(); }

// integer ranges: [min,max), monotone in the random bits, both ends taken
template <typename T, size_t N, typename Fn>
static void range_int(Fn&& bounds)
{
    T mn, mx;
    bounds(mn, mx);
    u32 x[4];
    random_state s = anystate(x);
    vec<T, N> r = random_range<N, T>(s, mn, mx);
    using UT = std::make_unsigned_t<T>;
    UT e[N];
    bytes_def<N * sizeof(T)>(x, (u8*)e);
    same_state(s, x, "random_range advances the state like random_bits");
    for (size_t i = 0; i < N; i++)
    {
        sym::check((r[i] >= mn) & (r[i] < mx), "random_range of integers is in [min,max)");
        sym::check((e[i] != 0) | (r[i] == mn), "random_range reaches min");
        sym::check((e[i] != (UT)~(UT)0) | (r[i] == mx - 1), "random_range reaches max-1");
    }
}
template <typename T>
static auto bnd(T a, T b) { return [a, b](T& mn, T& mx) { mn = a; mx = b; }; }
template <typename T>
static auto anybnd()
{
    return [](T& mn, T& mx) { mn = sym::any<T>("min"); mx = sym::any<T>("max"); sym::assume(mn < mx); };
}
ENTRY(range_i8) { range_int<i8, 1>(anybnd<i8>()); }
ENTRY(range_u8) { range_int<u8, 1>(anybnd<u8>()); }
ENTRY(range_i8x3) { range_int<i8, 3>(bnd<i8>(-3, 7)); range_int<u8, 16>(bnd<u8>(0, 255)); range_int<i8, 4>(bnd<i8>(-128, 127)); }
ENTRY(range_i16) { range_int<i16, 2>(bnd<i16>(-30000, 30000)); range_int<u16, 2>(bnd<u16>(1000, 60000)); range_int<i16, 1>(bnd<i16>(5, 6)); }
ENTRY(range_i32a) { range_int<i32, 1>(bnd<i32>(-6, 10)); }
ENTRY(range_i32b) { range_int<i32, 4>(bnd<i32>(0, 256)); }
ENTRY(range_i32c) { range_int<i32, 1>(bnd<i32>(INT32_MIN, INT32_MAX)); }
ENTRY(range_u32) { range_int<u32, 2>(bnd<u32>(3, 4)); range_int<u32, 1>(bnd<u32>(7, 1000)); range_int<u32, 1>(bnd<u32>(0, 0xffffffffu)); }

// floating point ranges
template <typename T, size_t N>
static void range_float(T mn, T mx, double tol)
{
    u32 x[4];
    random_state s = anystate(x), s2 = s;
    vec<T, N> r = random_range<N, T>(s, mn, mx);
    vec<T, N> u = random_uniform<T, N>(s2);
    for (size_t i = 0; i < N; i++)
    {
        sym::check((r[i] >= mn) & (r[i] <= mx), "random_range is in [min,max]");
        __sym_close(r[i], __sym_xadd(mn, __sym_xmul(u[i], (double)mx - (double)mn)), tol, "random_range interpolates between min and max");
    }
    u32 a[4];
    memcpy(a, &s2, 16);
    same_state(s, a, "random_range advances the state like random_uniform");
}
ENTRY(range_f32a) { range_float<f32, 1>(-1, 1, 1e-5); range_float<f32, 1>(0, 0.25f, 1e-6); }
ENTRY(range_f32b) { range_float<f32, 1>(-0.1f, 0.3f, 1e-6); }
ENTRY(range_f32c) { range_float<f32, 4>(100, 2000, 0.01); }
ENTRY(range_f64a) { range_float<f64, 1>(-1, 1, 1e-14); }
ENTRY(range_f64b) { range_float<f64, 2>(2, 6, 1e-13); }

// Box-Muller on a copy of the same uniform values
template <typename T, size_t N>
static void normal_test()
{
    constexpr size_t M = (N + 1) / 2 * 2;
    u32 x[4];
    random_state s = anystate(x), s2 = s;
    T mu = T(0.75), sigma = T(2);
    vec<T, N> r = random_normal<N, T>(s, mu, sigma);
    vec<T, M> u = random_uniform<T, M>(s2);
    vec<T, M / 2> mag = sigma * kfr::sqrt(T(-2) * kfr::log(T(1) - even(u)));
    vec<T, M> z = dup(mag) * kfr::cossin(c_pi<T, 2> * dupodd(u)) + mu;
    for (size_t i = 0; i < N; i++)
        sym::check(sym::same<T>(r[i], z[i]), "random_normal is the Box-Muller transform of the uniform values");
}
ENTRY(normal_f32) { normal_test<f32, 1>(); normal_test<f32, 2>(); }
ENTRY(normal_f32x4) { normal_test<f32, 3>(); normal_test<f32, 4>(); }
ENTRY(normal_f64) { normal_test<f64, 2>(); normal_test<f64, 3>(); }
// the magnitude is finite for every uniform value
template <typename T>
static void normal_finite()
{
    // uniform values that are zero: all mantissa bits zero
    random_state s;
    u32 x[4] = { 0, 0, 0, 0 };
    // predecessor of a state whose bytes are zero: solve the recurrence
    static const u32 mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    for (int i = 0; i < 4; i++)
    {
        u32 inv = mul[i];
        for (int k = 0; k < 5; k++) inv *= 2 - mul[i] * inv;
        x[i] = (0u - add[i]) * inv;
    }
    s.v = portable_vec<u32, 4>{ x[0], x[1], x[2], x[3] };
    vec<T, 2> r = random_normal<2, T>(s, T(0.5), T(3));
    sym::check((r[0] == T(0.5)) & (r[1] == T(0.5)), "random_normal of zero uniform values is mu");
    u32 z[4] = { 0, 0, 0, 0 };
    same_state(s, z, "zero state reached");
}
ENTRY(normal_zero) { normal_finite<f32>(); normal_finite<f64>(); }

// expressions: same numbers as the functions, in order; a reference advances the caller's generator, a copy does not
ENTRY(expr_uniform_copy)
{
    u32 x[4];
    random_state s = anystate(x), c = s;
    auto e = gen_random_uniform<f32>(s);
    std::vector<f32> out;
    for (int i = 0; i < 3; i++)
    {
        vec<f32, 4> v = get_elements(e, shape<1>(i * 4), axis_params_v<0, 4>), w = random_uniform<f32, 4>(c);
        for (int k = 0; k < 4; k++) sym::check(sym::same<f32>(v[k], w[k]), "gen_random_uniform yields random_uniform");
    }
    same_state(s, x, "an expression with a copied state leaves the generator alone");
}
ENTRY(expr_uniform_ref)
{
    u32 x[4];
    random_state s = anystate(x), c = s;
    auto e = gen_random_uniform<f64>(std::ref(s));
    for (int i = 0; i < 3; i++)
    {
        vec<f64, 2> v = get_elements(e, shape<1>(i * 2), axis_params_v<0, 2>), w = random_uniform<f64, 2>(c);
        for (int k = 0; k < 2; k++) sym::check(sym::same<f64>(v[k], w[k]), "gen_random_uniform yields random_uniform");
    }
    u32 a[4];
    memcpy(a, &c, 16);
    same_state(s, a, "an expression with a referenced state advances the generator");
}
ENTRY(expr_uniform_int)
{
    random_state s = anystate(), c = s;
    auto e = gen_random_uniform<u16>(s);
    vec<u16, 8> v = get_elements(e, shape<1>(0), axis_params_v<0, 8>), w = random_uniform<u16, 8>(c);
    for (int k = 0; k < 8; k++) sym::check(v[k] == w[k], "gen_random_uniform yields random_uniform");
}
ENTRY(expr_range)
{
    u32 x[4];
    random_state s = anystate(x), c = s, c2 = s;
    auto e = gen_random_range<f32>(s, -1.f, 3.f);
    vec<f32, 4> v = get_elements(e, shape<1>(0), axis_params_v<0, 4>), w = random_range<4, f32>(c, -1.f, 3.f);
    for (int k = 0; k < 4; k++) sym::check(sym::same<f32>(v[k], w[k]), "gen_random_range yields random_range");
    same_state(s, x, "an expression with a copied state leaves the generator alone");
    auto f = gen_random_range<i32>(std::ref(s), -7, 30);
    vec<i32, 4> iv = get_elements(f, shape<1>(0), axis_params_v<0, 4>), iw = random_range<4, i32>(c2, -7, 30);
    for (int k = 0; k < 4; k++) sym::check(iv[k] == iw[k], "gen_random_range yields random_range");
    u32 a[4];
    memcpy(a, &c2, 16);
    same_state(s, a, "an expression with a referenced state advances the generator");
}
ENTRY(expr_normal)
{
    u32 x[4];
    random_state s = anystate(x), c = s, c2 = s;
    auto e = gen_random_normal<f32>(s, 2.f, 0.5f); // sigma, mu
    vec<f32, 2> v = get_elements(e, shape<1>(0), axis_params_v<0, 2>), w = random_normal<2, f32>(c, 0.5f, 2.f);
    for (int k = 0; k < 2; k++) sym::check(sym::same<f32>(v[k], w[k]), "gen_random_normal yields random_normal(mu, sigma)");
    same_state(s, x, "an expression with a copied state leaves the generator alone");
    auto f = gen_random_normal<f32>(std::ref(s));
    vec<f32, 2> v2 = get_elements(f, shape<1>(0), axis_params_v<0, 2>), w2 = random_normal<2, f32>(c2, 0.f, 1.f);
    for (int k = 0; k < 2; k++) sym::check(sym::same<f32>(v2[k], w2[k]), "gen_random_normal defaults to mu 0, sigma 1");
    u32 a[4];
    memcpy(a, &c2, 16);
    same_state(s, a, "an expression with a referenced state advances the generator");
}
ENTRY(expr_fill)
{
    // whole array: every element in range, the same seed gives the same numbers
    random_state s = anystate();
    univector<f32, 11> a = truncate(gen_random_uniform<f32>(s), 11), b = truncate(gen_random_uniform<f32>(s), 11);
    for (int i = 0; i < 11; i++)
    {
        sym::check((a[i] >= 0) & (a[i] < 1), "random_uniform is in [0,1)");
        sym::check(sym::same<f32>(a[i], b[i]), "the same seed gives the same numbers");
    }
    univector<f32, 11> c = truncate(gen_random_uniform<f32>(std::ref(s)), 11), d = truncate(gen_random_uniform<f32>(std::ref(s)), 11);
    for (int i = 0; i < 11; i++) sym::check((c[i] >= 0) & (c[i] < 1) & (d[i] >= 0) & (d[i] < 1), "random_uniform is in [0,1)");
}
