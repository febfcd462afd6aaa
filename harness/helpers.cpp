// P20: integer helpers, digit reversal, byte order, fractions, small containers, aligned memory, lock-free queue.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/base/endianness.hpp>
#include <kfr/base/fraction.hpp>
#include <kfr/base/inline_vector.hpp>
#include <kfr/base/small_buffer.hpp>
#include <kfr/simd/digitreverse.hpp>
#include <memory>
#include <vector>
using namespace kfr;

template <typename T>
static void pow2_test(T lo = 1, T hi = T(1) << (sizeof(T) * 8 - 2))
{
    T x = sym::any<T>("x");
    if constexpr (std::is_unsigned_v<T>)
    {
        bool single = false;
        for (unsigned i = 0; i < sizeof(T) * 8; i++) single = single | (x == (T)(T(1) << i));
        sym::check(is_poweroftwo(x) == single, "is_poweroftwo");
    }
    sym::assume(x >= lo && x <= hi);
    unsigned l = ilog2(x);
    sym::check((x >> l) == 1, "ilog2 is the position of the highest bit");
    T n = next_poweroftwo(x);
    sym::check((n & (T)(n - 1)) == 0, "next_poweroftwo is a power of two");
    sym::check((n >= x) & ((T)(n / 2) < x), "next_poweroftwo is the smallest power of two not below n");
    T p = prev_poweroftwo(x);
    sym::check((p > 0) & ((p & (T)(p - 1)) == 0), "prev_poweroftwo is a power of two");
    sym::check((p <= x) & ((T)(x - p) < p), "prev_poweroftwo is the largest power of two not above n");
}
ENTRY(pow2_zero)
{
    sym::check(!is_poweroftwo(0u) && ilog2(0u) == 0 && next_poweroftwo(0u) == 0 && prev_poweroftwo(0u) == 0, "zero");
    sym::check(is_poweroftwo(1u) && ilog2(1u) == 0 && next_poweroftwo(1u) == 1 && prev_poweroftwo(1u) == 1, "one");
    sym::check(ilog2(0xffffffffu) == 31 && prev_poweroftwo(0xffffffffu) == 0x80000000u && ilog2(~0ull) == 63 && prev_poweroftwo(~0ull) == 1ull << 63, "largest values");
    sym::check(next_poweroftwo(0x80000000u) == 0x80000000u && next_poweroftwo(0x7fffffffu) == 0x80000000u, "largest power");
}
ENTRY(pow2_u8) { pow2_test<u8>(); }
ENTRY(pow2_u32) { pow2_test<u32>(); }
ENTRY(pow2_u64a) { pow2_test<u64>(1ull << 30, 1ull << 42); }
ENTRY(pow2_u64b) { pow2_test<u64>(1ull << 42, 1ull << 53); }
ENTRY(pow2_u64c) { pow2_test<u64>(1ull << 53, 1ull << 62); }
ENTRY(pow2_i32) { pow2_test<i32>(); }
ENTRY(evenodd)
{
    i32 x = sym::any<i32>("x");
    sym::check(is_even(x) == ((x & 1) == 0), "is_even");
    sym::check(is_odd(x) == ((x & 1) == 1), "is_odd");
    u8 y = sym::any<u8>("y");
    sym::check(is_even(y) == ((y & 1) == 0), "is_even");
    sym::check(is_odd(y) == ((y & 1) == 1), "is_odd");
}
ENTRY(align)
{
    size_t x = sym::range("x", 0, 1ull << 40);
    for (unsigned s = 0; s <= 15; s++)
    {
        size_t a = size_t(1) << s, m = x & (a - 1);
        sym::check(align_down(x, a) == x - m, "align_down is the largest multiple not above x");
        sym::check(align_up(x, a) == (m ? x - m + a : x), "align_up is the smallest multiple not below x");
    }
    u8* p = reinterpret_cast<u8*>(x);
    sym::check((size_t)align_down(p, 64) == (x & ~size_t(63)), "align_down of a pointer");
    sym::check((size_t)align_up(p, 64) == ((x + 63) & ~size_t(63)), "align_up of a pointer");
}
ENTRY(gcd)
{
    u8 a = sym::any<u8>("a"), b = sym::any<u8>("b"), d = sym::any<u8>("d");
    sym::assume(a < 64 && b < 64 && d < 64 && d > 0);
    u8 g = gcd(a, b);
    if (a == 0 && b == 0)
    {
        sym::check(g == 0, "gcd(0,0)");
        return;
    }
    sym::check(g != 0, "gcd is positive");
    if (!g) return;
    sym::check(a % g == 0, "gcd divides the first argument");
    sym::check(b % g == 0, "gcd divides the second argument");
    sym::check(!((a % d == 0) & (b % d == 0)) | (g % d == 0), "every common divisor divides the gcd");
}
ENTRY(gcd_many)
{
    sym::check(gcd(12u) == 12u, "gcd of one");
    u32 k = (u32)sym::pick("k", 0, 30);
    sym::check(gcd(6 * k, 10 * k, 15 * k) == k, "gcd of three");
    sym::check(gcd(6 * k, 4 * k) == 2 * k, "gcd of two");
    sym::check(gcd(k, 0u) == k, "gcd with zero");
    sym::check(gcd(0u, k) == k, "gcd with zero");
    if (k)
    {
        sym::check(lcm(6 * k, 4 * k) == 12 * k, "lcm of two");
        sym::check(lcm(6 * k, 10 * k, 15 * k) == 30 * k, "lcm of three");
        sym::check(lcm(7 * k) == 7 * k, "lcm of one");
    }
}
ENTRY(floordiv)
{
    static const long long bs[5] = { 1, 2, 3, 7, 10 };
    long long a = sym::any<i16>("a");
    for (int i = 0; i < 5; i++)
    {
        auto d = floor_div(a, bs[i]);
        sym::check(d.quot * bs[i] + d.rem == a, "floor_div: a = q*b + r");
        sym::check((d.rem >= 0) & (d.rem < bs[i]), "floor_div: 0 <= r < b");
    }
}

template <size_t bits>
static void rev_test(u32 x)
{
    u32 m = bits == 32 ? ~0u : (1u << (bits % 32)) - 1;
    u32 y = x & m, r = 0;
    for (size_t i = 0; i < bits; i++) r |= ((y >> i) & 1) << (bits - 1 - i);
    sym::check(bitreverse<bits>(y) == r, "bitreverse<bits>");
    if constexpr (bits % 2 == 0)
    {
        u32 q = 0;
        for (size_t i = 0; i < bits; i += 2) q |= ((y >> i) & 3) << (bits - 2 - i);
        sym::check(digitreverse4<bits>(y) == q, "digitreverse4<bits>");
    }
}
ENTRY(bitrev)
{
    u32 x = sym::any<u32>("x");
    rev_test<1>(x); rev_test<2>(x); rev_test<3>(x); rev_test<4>(x); rev_test<5>(x); rev_test<6>(x); rev_test<7>(x); rev_test<8>(x);
    rev_test<9>(x); rev_test<10>(x); rev_test<11>(x); rev_test<12>(x); rev_test<13>(x); rev_test<14>(x); rev_test<15>(x); rev_test<16>(x);
    rev_test<17>(x); rev_test<18>(x); rev_test<19>(x); rev_test<20>(x); rev_test<21>(x); rev_test<22>(x); rev_test<23>(x); rev_test<24>(x);
    rev_test<25>(x); rev_test<26>(x); rev_test<28>(x); rev_test<30>(x); rev_test<31>(x); rev_test<32>(x);
}

template <typename T>
static void endian_test(size_t maxn)
{
    using S = deep_subtype<T>;
    for (size_t n = 0; n <= maxn; n++)
    {
        std::unique_ptr<T[]> a(new T[n]), b(new T[n]);
        __sym_bytes(a.get(), n * sizeof(T), "a");
        memcpy((void*)b.get(), (void*)a.get(), n * sizeof(T));
        convert_endianess(a.get(), n);
        u8 *p = (u8*)a.get(), *q = (u8*)b.get();
        for (size_t i = 0; i < n * sizeof(T); i++)
            sym::check(p[i] == q[i / sizeof(S) * sizeof(S) + sizeof(S) - 1 - i % sizeof(S)], "convert_endianess reverses the bytes of every element");
        convert_endianess(a.get(), n);
        for (size_t i = 0; i < n * sizeof(T); i++) sym::check(p[i] == q[i], "convert_endianess twice is the identity");
    }
}
ENTRY(endian_u8) { endian_test<u8>(70); }
ENTRY(endian_16) { endian_test<u16>(40); endian_test<i16>(5); }
ENTRY(endian_32) { endian_test<u32>(20); endian_test<f32>(20); }
ENTRY(endian_64) { endian_test<u64>(12); endian_test<f64>(12); }
ENTRY(endian_c) { endian_test<complex<f32>>(10); endian_test<complex<f64>>(6); }

// fractions of small numbers
static i64 small(const char* n, int lo = -12, int hi = 12) { return (i64)sym::pick(n, 0, hi - lo) + lo; } // explored value by value: 64-bit remainders chains are too hard bit-precisely
static void norm_check(const fraction& f, i64 num, i64 den)
{
    // num/den in lowest terms with a positive denominator
    sym::check(f.denominator > 0, "the denominator is positive");
    sym::check(f.numerator * den == f.denominator * num, "the value of the fraction");
    for (i64 d : { 2, 3, 5, 7 }) sym::check(!((f.numerator % d == 0) & (f.denominator % d == 0)), "lowest terms");
}
template <int lo, int hi>
static void fraction_norm_test()
{
    i64 den = (i64)sym::pick("den", lo, hi), a = small("a");
    norm_check(fraction(a, den), a, den);
    norm_check(fraction(a, -den), a, -den);
    norm_check(fraction(a), a, 1);
}
ENTRY(fraction_norm1) { fraction_norm_test<1, 6>(); }
ENTRY(fraction_norm2) { fraction_norm_test<7, 12>(); }
ENTRY(fraction_ops)
{
    i64 ad = (i64)sym::pick("ad", 1, 6), bd = (i64)sym::pick("bd", 1, 6), an = small("an", -7, 7), bn = small("bn", -5, 5);
    i64 A = an * bd, B = bn * ad; // over the common denominator ad*bd
    fraction a(an, ad), b(bn, bd);
    sym::check((a == b) == (A == B), "==");
    sym::check((a != b) == (A != B), "!=");
    sym::check((a < b) == (A < B), "<");
    sym::check((a <= b) == (A <= B), "<=");
    sym::check((a > b) == (A > B), ">");
    sym::check((a >= b) == (A >= B), ">=");
    sym::check((bool)a == (an != 0), "bool");
}
ENTRY(fraction_arith)
{
    i64 ad = (i64)sym::pick("ad", 1, 5), bd = (i64)sym::pick("bd", 1, 4);
    i64 an = (i64)sym::pick("an", 0, 14) - 7, bn = small("bn", -4, 4);
    fraction a(an, ad), b(bn, bd);
    auto eq = [](const fraction& f, i64 n, i64 d, const char* msg) { sym::check((f.denominator > 0) & (f.numerator * d == f.denominator * n), msg); };
    fraction c = a;
    eq(a + b, an * bd + bn * ad, ad * bd, "+");
    eq(a - b, an * bd - bn * ad, ad * bd, "-");
    eq(a * b, an * bn, ad * bd, "*");
    eq(-b, -bn, bd, "unary -");
    eq(+b, bn, bd, "unary +");
    c += b; eq(c, an * bd + bn * ad, ad * bd, "+=");
    c -= b; eq(c, an, ad, "-=");
    c *= b; eq(c, an * bn, ad * bd, "*=");
    if (bn != 0)
    {
        eq(a / b, an * bd, ad * bn, "/");
        fraction d = a;
        d /= b; eq(d, an * bd, ad * bn, "/=");
    }
}
ENTRY(fraction_convert)
{
    i64 n = (i64)sym::pick("n", 0, 40) - 20, d = (i64)sym::pick("d", 1, 9);
    fraction f(n, d);
    sym::check((double)f == (double)n / (double)d, "conversion to double");
    sym::check((float)f == (float)n / (float)d, "conversion to float");
    sym::check((i64)f == n / d, "conversion to integer truncates");
}

// histories of operations on the small containers against a plain array
ENTRY(smallbuffer)
{
    small_buffer<i32, 4> b;
    std::vector<i32> m;
    for (int step = 0; step < (THOROUGH ? 8 : 6); step++)
    {
        switch (sym::pick("op", 0, 3))
        {
        case 0: { i32 v = sym::any<i32>("v"); b.push_back(v); m.push_back(v); break; }
        case 1: if (!m.empty()) { b.pop_back(); m.pop_back(); } break;
        case 2: if (!m.empty()) { b.push_back(b.front()); m.push_back(m[0]); } break; // an element of the buffer itself
        case 3: { i32 v = sym::any<i32>("w"); size_t o = m.size(); b.resize(o + 3); m.resize(o + 3); for (size_t i = o; i < o + 3; i++) b[i] = m[i] = v; break; }
        }
        sym::check(b.size() == m.size() && b.empty() == m.empty() && b.end() - b.begin() == (ptrdiff_t)m.size(), "size");
        for (size_t i = 0; i < m.size() && i < b.size(); i++) sym::check(b[i] == m[i], "elements");
        if (!m.empty()) sym::check((b.front() == m.front()) & (b.back() == m.back()), "front and back");
    }
}
using SB = small_buffer<i32, 3>;
using SV = std::vector<i32>;
static void sb_is(const SB& x, const SV& m)
{
    sym::check(x.size() == m.size(), "size");
    for (size_t i = 0; i < m.size() && i < x.size(); i++) sym::check(x[i] == m[i], "elements");
}
template <typename Fn>
static void sb_two(Fn&& fn) // two buffers of n and k elements
{
    size_t n = sym::pick("n", 0, 6), k = sym::pick("k", 0, 6);
    SB a(n), b(k);
    SV ma(n), mb(k);
    for (size_t i = 0; i < n; i++) a[i] = ma[i] = sym::any<i32>("a");
    for (size_t i = 0; i < k; i++) b[i] = mb[i] = sym::any<i32>("b");
    fn(a, b, ma, mb);
}
// changing the storage of one buffer must not show in the other
static void sb_scribble(SB& x, SV& m) { for (size_t i = 0; i < m.size(); i++) x[i] = m[i] = m[i] ^ 0x55; }
ENTRY(smallbuffer_copy)
{
    sb_two([](SB& a, SB& b, SV& ma, SV& mb) {
        SB c(a);
        sb_is(c, ma);
        SV mc(ma);
        sb_scribble(c, mc);
        sb_is(c, mc);
        sb_is(a, ma);
    });
}
ENTRY(smallbuffer_swap)
{
    sb_two([](SB& a, SB& b, SV& ma, SV& mb) {
        swap(a, b);
        sb_is(a, mb);
        sb_is(b, ma);
        sb_scribble(a, mb);
        sb_is(b, ma);
        sb_scribble(b, ma);
        sb_is(a, mb);
        a.push_back(1);
        mb.push_back(1);
        sb_is(a, mb);
    });
}
ENTRY(smallbuffer_move)
{
    sb_two([](SB& a, SB& b, SV& ma, SV& mb) {
        SB d(std::move(a));
        sb_is(d, ma);
        sym::check(a.empty(), "moved-from buffer is empty");
        a.push_back(5);
        sb_is(a, SV(1, 5));
        sb_is(d, ma);
    });
}
ENTRY(smallbuffer_assign)
{
    sb_two([](SB& a, SB& b, SV& ma, SV& mb) {
        b = a;
        sb_is(b, ma);
        SV mc(ma);
        sb_scribble(a, mc);
        sb_is(b, ma);
        b = b;
        sb_is(b, ma);
        b = std::move(a);
        b.clear();
        sym::check(b.empty(), "clear");
        b.push_back(7);
        sb_is(b, SV(1, 7));
    });
}
ENTRY(inlinevector)
{
    inline_vector<i32, 4> v;
    i32 m[4];
    size_t n = sym::pick("n", 0, 4);
    for (size_t i = 0; i < n; i++) { m[i] = sym::any<i32>("v"); v.push_back(m[i]); }
    sym::check(v.size() == n && v.empty() == (n == 0), "size");
    for (size_t i = 0; i < n; i++) sym::check((v[i] == m[i]) & (v.at(i) == m[i]) & (v.data()[i] == m[i]), "elements");
    if (n) sym::check((v.front() == m[0]) & (v.back() == m[n - 1]), "front and back");
    inline_vector<i32, 4> w(v), r(m, m + n);
    sym::check(w == v, "copy equals the original");
    sym::check(r == v, "range construction");
    sym::check(!(w != v), "!=");
    if (n)
    {
        size_t j = sym::pick("j", 0, n - 1);
        i32 x = sym::any<i32>("x");
        w[j] = x;
        sym::check((w == v) == (x == m[j]), "== compares all elements");
    }
    if (n < 4)
    {
        inline_vector<i32, 4> u(v);
        u.push_back(1);
        sym::check(!(u == v) && !(v == u) && u != v, "vectors of different sizes are not equal");
    }
    bool thrown = false;
    try { v.at(n); } catch (...) { thrown = true; }
    sym::check(thrown, "at() out of range throws");
    thrown = false;
    try { for (size_t i = n; i < 5; i++) v.push_back(0); } catch (...) { thrown = true; }
    sym::check(thrown && v.size() == 4, "push_back to a full vector throws");
    thrown = false;
    try { inline_vector<i32, 4> big(size_t(5), 1); } catch (...) { thrown = true; }
    sym::check(thrown, "construction with too many elements throws");
    thrown = false;
    i32 z[5] = {};
    try { inline_vector<i32, 4> big(z, z + 5); } catch (...) { thrown = true; }
    sym::check(thrown, "construction from a longer range throws");
    inline_vector<i32, 300> l(size_t(290), 5);
    sym::check(l.size() == 290 && l.end() - l.begin() == 290 && l[289] == 5, "size above 255");
}
ENTRY(memory)
{
    static const size_t al[6] = { 1, 8, 16, 64, 256, 4096 };
    size_t a = al[sym::pick("al", 0, 5)], n = sym::pick("n", 0, 5) * 13;
    size_t before = __sym_heap_live();
    u8* p = aligned_allocate<u8>(n, a);
    sym::check(p != nullptr && (size_t)p % a == 0, "aligned_allocate returns an aligned block");
    for (size_t i = 0; i < n; i++) p[i] = (u8)i; // the block is large enough: the engine reports stray accesses
    u8* q = aligned_allocate<u8>(n, a);
    for (size_t i = 0; i < n; i++) q[i] = 255;
    for (size_t i = 0; i < n; i++) sym::check(p[i] == (u8)i, "blocks do not overlap");
    aligned_deallocate(q);
    size_t m = sym::pick("m", 1, 3) * 21;
    u8* r = (u8*)cometa::details::aligned_reallocate(p, m, a);
    sym::check((size_t)r % a == 0, "aligned_reallocate keeps the alignment");
    for (size_t i = 0; i < std::min(n, m); i++) sym::check(r[i] == (u8)i, "aligned_reallocate keeps the contents");
    for (size_t i = 0; i < m; i++) r[i] = 1;
    aligned_deallocate(r);
    {
        autofree<f32> f(5);
        for (int i = 0; i < 5; i++) f[i] = i;
        autofree<f32> g(std::move(f));
        for (int i = 0; i < 5; i++) sym::check(g[i] == i && g.data()[i] == i, "autofree keeps the data when moved");
    }
    sym::check(__sym_heap_live() == before, "all memory is returned");
}
// queue histories: order, loss, capacity
ENTRY(queue)
{
    constexpr size_t cap = 5;
    univector<i32> buf(cap, 0);
    lockfree_ring_buffer<i32> q;
    std::vector<i32> m;
    i32 src[4], dst[7];
    for (int step = 0; step < (THOROUGH ? 5 : 4); step++)
    {
        size_t k = sym::pick("k", 0, 6);
        if (k > 4 && step % 2 == 0) return;
        bool partial = sym::pick("p", 0, 1);
        if (step % 2 == 0)
        {
            for (size_t i = 0; i < k; i++) src[i] = sym::any<i32>("v");
            size_t room = cap - m.size(), want = k <= room ? k : partial ? room : 0;
            size_t r = q.try_enqueue(src, k, buf, partial);
            sym::check(r == want, "try_enqueue takes what fits, or nothing");
            m.insert(m.end(), src, src + want);
        }
        else
        {
            size_t want = k <= m.size() ? k : partial ? m.size() : 0;
            for (i32& d : dst) d = 12345;
            size_t r = q.try_dequeue(dst, k, buf, partial);
            sym::check(r == want, "try_dequeue returns what is there, or nothing");
            for (size_t i = 0; i < want; i++) sym::check(dst[i] == m[i], "elements come out in order");
            for (size_t i = want; i < 7; i++) sym::check(dst[i] == 12345, "nothing else is written");
            m.erase(m.begin(), m.begin() + want);
        }
        sym::check(q.size() == m.size(), "size");
    }
}
ENTRY(queue_long)
{
    // more elements than the queue holds pass through it
    constexpr size_t cap = 5;
    static const size_t ks[3] = { 2, 3, 5 };
    univector<i32> buf(cap, 0);
    lockfree_ring_buffer<i32> q;
    std::vector<i32> m;
    i32 src[5], dst[5];
    for (int step = 0; step < 8; step++)
    {
        size_t k = ks[sym::pick("k", 0, 2)];
        if (step % 2 == 0)
        {
            for (size_t i = 0; i < k; i++) src[i] = sym::any<i32>("v");
            size_t want = std::min(k, cap - m.size());
            sym::check(q.try_enqueue(src, k, buf, true) == want, "try_enqueue takes what fits");
            m.insert(m.end(), src, src + want);
        }
        else
        {
            size_t want = std::min(k, m.size());
            sym::check(q.try_dequeue(dst, k, buf, true) == want, "try_dequeue returns what is there");
            for (size_t i = 0; i < want; i++) sym::check(dst[i] == m[i], "elements come out in order");
            m.erase(m.begin(), m.begin() + want);
        }
        sym::check(q.size() == m.size(), "size");
    }
}
