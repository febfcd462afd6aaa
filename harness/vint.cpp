// Every operation on vectors of integers equals the scalar operation on each lane, for every width and value.
#include "sym.h"
#include <kfr/base.hpp>
using namespace kfr;
template <typename T> struct wide_ { using t = i64; };
template <> struct wide_<i64> { using t = __int128; };
template <> struct wide_<u64> { using t = __int128; };
template <typename T> using wide = typename wide_<T>::t;
template <typename T> constexpr T MX = std::numeric_limits<T>::max();
template <typename T> constexpr T MN = std::numeric_limits<T>::min();
template <typename T, size_t N>
static vec<T, N> in(T (&a)[N], const char* n)
{
    vec<T, N> v;
    for (size_t i = 0; i < N; i++) { a[i] = sym::any<T>(n); v[i] = a[i]; }
    return v;
}
template <typename T> T sat(wide<T> w) { return w > (wide<T>)MX<T> ? MX<T> : w < (wide<T>)MN<T> ? MN<T> : (T)w; }
template <typename T> using U = std::make_unsigned_t<T>;
template <typename A, typename B> static bool eq(const A& a, const B& b) { if constexpr (std::is_same_v<B, bool>) return (bool)a == b; else return a == b; }
#define LANE1(r, e, msg) { auto rr = (r); for (size_t i = 0; i < N; i++) sym::check(eq((typename decltype(rr)::value_type)rr[i], (e)), msg); }
#define LANES(r, e, msg) { auto rr = (r); bool ok = true; for (size_t i = 0; i < N; i++) ok &= eq((typename decltype(rr)::value_type)rr[i], (e)); sym::check(ok, msg); }

template <typename T, size_t N>
static __attribute__((noinline)) void arith()
{
    T a[N], b[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b");
    LANES(x + y, (T)((U<T>)a[i] + (U<T>)b[i]), "add");
    LANES(x - y, (T)((U<T>)a[i] - (U<T>)b[i]), "sub");
    LANES(x * y, (T)((sizeof(T) == 8 ? (u64)a[i] : (u64)(U<T>)a[i]) * (sizeof(T) == 8 ? (u64)b[i] : (u64)(U<T>)b[i])), "mul");
    LANES(x & y, (T)(a[i] & b[i]), "and");
    LANES(x | y, (T)(a[i] | b[i]), "or");
    LANES(x ^ y, (T)(a[i] ^ b[i]), "xor");
    LANES(~x, (T)~a[i], "not");
    LANES(bitwiseandnot(x, y), (T)(a[i] & ~b[i]), "andnot");
    LANES(-x, (T)(0 - (U<T>)a[i]), "neg");
    LANES(x + a[0], (T)((U<T>)a[i] + (U<T>)a[0]), "add scalar");
    LANES(b[0] - x, (T)((U<T>)b[0] - (U<T>)a[i]), "scalar sub");
    vec<T, N> z = x;
    z += y; z ^= x; z -= y; z &= y; z |= x;
    LANES(z, (T)((((T)(((T)((U<T>)a[i] + (U<T>)b[i])) ^ a[i]) - b[i]) & b[i]) | a[i]), "compound assignment");
}
template <typename T, size_t N>
static __attribute__((noinline)) void order()
{
    T a[N], b[N], c[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b"), z = in<T, N>(c, "c");
    LANES(x == y, (a[i] == b[i]), "equal");
    LANES(x != y, (a[i] != b[i]), "not equal");
    LANES(x < y, (a[i] < b[i]), "less");
    LANES(x > y, (a[i] > b[i]), "greater");
    LANES(x <= y, (a[i] <= b[i]), "less or equal");
    LANES(x >= y, (a[i] >= b[i]), "greater or equal");
    LANES((x < y) && (y < z), bool((a[i] < b[i]) & (b[i] < c[i])), "mask and");
    LANES((x < y) || (y < z), bool((a[i] < b[i]) | (b[i] < c[i])), "mask or");
    LANES((x < y) ^ (y < z), ((a[i] < b[i]) != (b[i] < c[i])), "mask xor");
    LANES(~(x < y), !(a[i] < b[i]), "mask not");
    LANES(min(x, y), (a[i] < b[i] ? a[i] : b[i]), "min");
    LANES(max(x, y), (a[i] > b[i] ? a[i] : b[i]), "max");
    LANES(select(x < y, y, z), (a[i] < b[i] ? b[i] : c[i]), "select");
    LANES(select(x == y, x, c[0]), (a[i] == b[i] ? a[i] : c[0]), "select with scalar");
    LANES(select(x >= y, c[0], x), (a[i] >= b[i] ? c[0] : a[i]), "select with scalar first");
    LANES(clamp(x, y, z), ((a[i] < c[i] ? a[i] : c[i]) > b[i] ? (a[i] < c[i] ? a[i] : c[i]) : b[i]), "clamp");
    LANES(clamp(x, z), ((a[i] < c[i] ? a[i] : c[i]) > 0 ? (a[i] < c[i] ? a[i] : c[i]) : T(0)), "clamp to zero");
    LANES(inrange(x, y, z), bool((a[i] >= b[i]) & (a[i] <= c[i])), "inrange");
    bool al = true, an = false;
    for (size_t i = 0; i < N; i++) { al &= a[i] < b[i]; an |= a[i] < b[i]; }
    sym::check(all(x < y) == al, "all");
    sym::check(any(x < y) == an, "any");
}
template <typename T, size_t N>
static __attribute__((noinline)) void satur()
{
    T a[N], b[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b");
    LANE1(satadd(x, y), sat<T>((wide<T>)a[i] + (wide<T>)b[i]), "saturating add");
    LANE1(satsub(x, y), sat<T>((wide<T>)a[i] - (wide<T>)b[i]), "saturating sub");
    sym::check(satadd(a[0], b[0]) == sat<T>((wide<T>)a[0] + (wide<T>)b[0]), "saturating add of scalars");
    sym::check(satsub(a[0], b[0]) == sat<T>((wide<T>)a[0] - (wide<T>)b[0]), "saturating sub of scalars");
    // most negative value wraps to itself
    LANE1(abs(x), (a[i] < 0 ? (T)(0 - (U<T>)a[i]) : a[i]), "abs");
    auto ab = [](T v) { return v < 0 ? (T)(0 - (U<T>)v) : v; };
    LANE1(absmin(x, y), (ab(a[i]) < ab(b[i]) ? ab(a[i]) : ab(b[i])), "absmin");
    LANE1(absmax(x, y), (ab(a[i]) > ab(b[i]) ? ab(a[i]) : ab(b[i])), "absmax");
}
template <typename T, size_t N>
static __attribute__((noinline)) void shifts()
{
    constexpr unsigned W = sizeof(T) * 8;
    T a[N];
    U<T> s[N];
    vec<T, N> x = in<T, N>(a, "a");
    vec<U<T>, N> sv;
    for (size_t i = 0; i < N; i++) { s[i] = sym::any<U<T>>("s"); sym::assume(s[i] < W); sv[i] = s[i]; }
    unsigned k = (unsigned)sym::range("k", 0, W - 1);
    LANES(x << k, (T)((U<T>)a[i] << k), "shift left by a scalar");
    LANES(x >> k, (T)(a[i] >> k), "shift right by a scalar");
    LANES(x << sv, (T)((U<T>)a[i] << s[i]), "shift left by a vector");
    LANES(x >> sv, (T)(a[i] >> s[i]), "shift right by a vector");
    if constexpr (std::is_unsigned_v<T>)
    {
        unsigned q = (unsigned)sym::range("q", 1, W - 1);
        LANES(rol(x, q), (T)((a[i] << q) | (a[i] >> (W - q))), "rotate left");
        LANES(ror(x, q), (T)((a[i] >> q) | (a[i] << (W - q))), "rotate right");
    }
}
template <typename T, size_t N, bool MOD>
static __attribute__((noinline)) void divide()
{
    T a[N], b[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b");
    for (size_t i = 0; i < N; i++) { sym::assume(b[i] != 0); if (std::is_signed_v<T>) sym::assume(!(a[i] == MN<T> && b[i] == (T)-1)); }
    if (MOD) { LANES(x % y, (T)(a[i] % b[i]), "mod"); }
    else { LANES(x / y, (T)(a[i] / b[i]), "div"); }
}
template <typename T, size_t N>
static __attribute__((noinline)) void horiz()
{
    T a[N], b[N];
    vec<T, N> x = in<T, N>(a, "a"), y = in<T, N>(b, "b");
    U<T> s = 0, d = 0;
    T mn = a[0], mx = a[0], an = ~T(0), o = 0, xo = 0;
    for (size_t i = 0; i < N; i++)
    {
        s += (U<T>)a[i];
        mn = a[i] < mn ? a[i] : mn;
        mx = a[i] > mx ? a[i] : mx;
        an &= a[i]; o |= a[i]; xo ^= a[i];
    }
    sym::check((U<T>)hadd(x) == s, "horizontal add");
    sym::check(hmin(x) == mn, "horizontal min");
    sym::check(hmax(x) == mx, "horizontal max");
    sym::check(hbitwiseand(x) == an, "horizontal and");
    sym::check(hbitwiseor(x) == o, "horizontal or");
    sym::check(hbitwisexor(x) == xo, "horizontal xor");
    if constexpr (sizeof(T) <= 2 && N <= 4)
    {
        U<T> p = 1;
        for (size_t i = 0; i < N; i++) { p = (U<T>)((unsigned)p * (U<T>)a[i]); d = (U<T>)(d + (unsigned)(U<T>)a[i] * (U<T>)b[i]); }
        sym::check((U<T>)hmul(x) == p, "horizontal mul");
        sym::check((U<T>)hdot(x, y) == d, "dot product");
    }
}
#define SIZES(f, T) f<T, 1>(); f<T, 3>(); f<T, 16 / sizeof(T)>(); f<T, 16 / sizeof(T) + 1>(); f<T, 32 / sizeof(T)>(); f<T, 64 / sizeof(T)>();
#define OPS(T) ENTRY(arith_##T) { SIZES(arith, T) } ENTRY(order_##T) { SIZES(order, T) } ENTRY(satur_##T) { if constexpr (sizeof(T) < 8 || THOROUGH) { SIZES(satur, T) } else { satur<T, 1>(); satur<T, 2>(); satur<T, 3>(); satur<T, 4>(); } } ENTRY(shifts_##T) { SIZES(shifts, T) } \
    ENTRY(horiz_##T) { horiz<T, 1>(); horiz<T, 2>(); horiz<T, 3>(); horiz<T, 4>(); if constexpr (sizeof(T) < 8) { horiz<T, 7>(); horiz<T, 8>(); } else horiz<T, 5>(); }
OPS(i8) OPS(u8) OPS(i16) OPS(u16) OPS(i32) OPS(u32) OPS(i64) OPS(u64)
#define DIV(T) ENTRY(divide_##T) { divide<T, 1, 0>(); divide<T, 3, 0>(); divide<T, 16 / sizeof(T), 0>(); } ENTRY(mod_##T) { divide<T, 1, 1>(); divide<T, 3, 1>(); divide<T, 16 / sizeof(T), 1>(); }
DIV(i8) DIV(u8) DIV(i16) DIV(u16) DIV(i32) DIV(u32) DIV(i64) DIV(u64)
