// Data movement between vector lanes, sorting, and reads/writes of memory are exact, for every width and value.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/simd/sort.hpp>
#include <kfr/simd/digitreverse.hpp>
using namespace kfr;
template <typename D, typename S> static D bc(S s) { D d; memcpy(&d, &s, sizeof d); return d; }
template <typename T> static T sy(const char* n)
{
    if constexpr (is_complex<T>) { subtype<T> re = sym::any<subtype<T>>(n), im = sym::any<subtype<T>>(n); return T(re, im); }
    else return sym::any<T>(n);
}
template <typename T> static bool same(const T& a, const T& b)
{
    if constexpr (is_complex<T>) return sym::same(a.real(), b.real()) & sym::same(a.imag(), b.imag());
    else return sym::same(a, b);
}
template <typename T, size_t N> static vec<T, N> in(T* a, const char* n)
{
    vec<T, N> v;
    for (size_t i = 0; i < N; i++) { a[i] = sy<T>(n); v[i] = a[i]; }
    return v;
}
template <typename V, typename T, typename F> static void mapped(const V& r, size_t M, const T* s, F&& f, const char* msg)
{
    bool ok = r.size() == M;
    for (size_t i = 0; i < M; i++) ok &= same<T>(r[i], s[f(i)]);
    sym::check(ok, msg);
}
#define M(r, n, f, msg) mapped((r), (n), s, [&](size_t i) -> size_t { return (f); }, msg)
static constexpr size_t lowpow(size_t n) { size_t p = 1; while (p * 2 <= n) p *= 2; return p; } // largest power of two <= n

template <typename T, size_t N>
static __attribute__((noinline)) void moves()
{
    T s[2 * N];
    vec<T, N> x = in<T, N>(s, "x"), y = in<T, N>(s + N, "y");
    M(concat(x, y), 2 * N, i, "concat");
    M(concat2(x, y), 2 * N, i, "concat2");
    M(concat(x, y, x), 3 * N, i % (2 * N), "concat of three");
    M(concat4(x, y, y, x), 4 * N, i < 2 * N ? i : i < 3 * N ? i - N : i - 3 * N, "concat4");
    M((repeat<3>(x)), 3 * N, i % N, "repeat");
    M((kfr::resize<N + 3>(x)), N + 3, i % N, "resize up");
    M((kfr::resize<N>(x)), N, i, "resize same");
    M((broadcast<N + 2>(s[0], s[1])), N + 2, i % 2, "broadcast of two values");
    M((padhigh<3>(x, s[N])), N + 3, i < N ? i : N, "padhigh");
    M((padlow<3>(x, s[N])), N + 3, i < 3 ? N : i - 3, "padlow");
    M((widen<N + 5>(x, s[N])), N + 5, i < N ? i : N, "widen");
    M((slice<0, N>(x, y)), N, i, "slice of a pair, first");
    M((slice<N / 2, N>(x, y)), N, i + N / 2, "slice of a pair");
    M((slice<N, N>(x, y)), N, i + N, "slice of a pair, second");
    M((concat_and_slice<1, N>(x, y)), N, i + 1, "concat_and_slice");
    M((concat_and_slice<1, N>(x, vec<T, 1>(s[N]))), N, i + 1, "concat_and_slice long short");
    M((concat_and_slice<0, N + 1>(vec<T, 1>(s[N]), x)), N + 1, i == 0 ? N : i - 1, "concat_and_slice short long");
    M((dup(x)), 2 * N, i / 2, "dup");
    M((duphalves(x)), 2 * N, i % N, "duphalves");
    M((interleave(x, y)), 2 * N, i % 2 * N + i / 2, "interleave");
    M((insertleft(s[N], x)), N, i == 0 ? N : i - 1, "insertleft");
    M((insertright(s[N], x)), N, i == N - 1 ? N : i + 1, "insertright");
    M((reverse(x)), N, N - 1 - i, "reverse");
    M((narrow<N>(x)), N, i, "narrow same");
    M((blend<0, 1>(x, y)), N, i % 2 * N + i, "blend");
    M((blend<1, 0, 0>(x, y)), N, (i % 3 == 0) * N + i, "blend of three");
    if constexpr (!is_complex<T>) {
    auto z = zip(x, y);
    bool ok = true;
    for (size_t i = 0; i < N; i++) ok &= same<T>(z[i][0], s[i]) & same<T>(z[i][1], s[N + i]);
    sym::check(ok, "zip");
    M((column<0>(z)), N, i, "column 0");
    M((column<1>(z)), N, N + i, "column 1");
    }
    if constexpr (N > 1)
    {
        constexpr size_t P = lowpow(N - 1);
        M(low(x), P, i, "low");
        M(high(x), N - P, i + P, "high");
        M(lowhalf(x), N / 2, i, "lowhalf");
        M(highhalf(x), N - N / 2, i + N / 2, "highhalf");
        M((slice<1, N - 1>(x)), N - 1, i + 1, "slice");
        M((narrow<N - 1>(x)), N - 1, i, "narrow");
        M((kfr::resize<N - 1>(x)), N - 1, i, "resize down");
        M((rotateleft<1>(x)), N, (i + 1) % N, "rotateleft 1");
        M((rotateleft<N - 1>(x)), N, (i + N - 1) % N, "rotateleft N-1");
        M((rotateright<1>(x)), N, (i + N - 1) % N, "rotateright 1");
        M((rotateright<N / 2>(x)), N, (i + N - N / 2) % N, "rotateright half");
        M((combine(x, narrow<N - 1>(y))), N, i < N - 1 ? N + i : i, "combine");
        M((combine(x, narrow<1>(y))), N, i < 1 ? N + i : i, "combine one");
    }
    M((combine(x, y)), N, N + i, "combine same width");
    M((rotateleft<0>(x)), N, i, "rotateleft 0");
    M((rotateright<0>(x)), N, i, "rotateright 0");
    if constexpr (N % 2 == 0)
    {
        M(even(x), N / 2, 2 * i, "even");
        M(odd(x), N / 2, 2 * i + 1, "odd");
        M(dupeven(x), N, i & ~size_t(1), "dupeven");
        M(dupodd(x), N, i | 1, "dupodd");
        M(duplow(x), N, i % (N / 2), "duplow");
        M(duphigh(x), N, i % (N / 2) + N / 2, "duphigh");
        M(interleavehalves(x), N, i % 2 * (N / 2) + i / 2, "interleavehalves");
        M(splitpairs(x), N, i % (N / 2) * 2 + i / (N / 2), "splitpairs");
        M((swap<2>(x)), N, i ^ 1, "swap");
        M((part<2, 0>(x)), N / 2, i, "part 0");
        M((part<2, 1>(x)), N / 2, i + N / 2, "part 1");
        M((permute<1, 0>(x)), N, i ^ 1, "permute");
        M((shuffle<0, N + 1>(x, y)), N, i % 2 ? N + i : i, "shuffle");
        vec<T, N / 2> l, h;
        split(x, l, h);
        M(l, N / 2, i, "split low");
        M(h, N / 2, i + N / 2, "split high");
        M((transpose<2>(x)), N, N > 3 ? i % (N / 2) * 2 + i / (N / 2) : i, "transpose<2>");
        M((transposeinverse<2>(x)), N, N > 3 ? i % 2 * (N / 2) + i / 2 : i, "transposeinverse<2>");
        M((transposeinverse<2>(transpose<2>(x))), N, i, "transpose and back");
    }
    if constexpr (N % 4 == 0)
    {
        M((even<2>(x)), N / 2, i / 2 * 4 + i % 2, "even groups");
        M((odd<2>(x)), N / 2, i / 2 * 4 + i % 2 + 2, "odd groups");
        M((permute<3, 1, 0, 2>(x)), N, i / 4 * 4 + (i % 4 == 0 ? 3 : i % 4 == 1 ? 1 : i % 4 == 2 ? 0 : 2), "permute of four");
        M((permutegroups<2, 1, 0>(x)), N, i ^ 2, "permutegroups");
        M((shufflegroups<2, 0, N / 2 + 1>(x, y)), N, i / 2 % 2 ? N + i : i, "shufflegroups");
        M((interleave<2>(x, y)), 2 * N, i / 2 % 2 * N + i / 4 * 2 + i % 2, "interleave groups");
        M((reverse<2>(x)), N, N - 2 - i / 2 * 2 + i % 2, "reverse groups");
        M((swap<4>(x)), N, i ^ 3, "swap of four");
        M((transpose<4>(x)), N, i % (N / 4) * 4 + i / (N / 4), "transpose<4>");
        M((transposeinverse<4>(transpose<4>(x))), N, i, "transpose<4> and back");
        vec<T, N / 4> a, b, c, d;
        split(x, a, b, c, d);
        M(concat(a, b, c, d), N, i, "split in four");
        vec<T, 1> e;
        vec<T, N - 1> f;
        split(x, e, f);
        M(e, 1, i, "split uneven");
        M(f, N - 1, i + 1, "split uneven rest");
        if constexpr (N > 4)
        {
            M((ctranspose<2>(x)), N, (i / 2 % (N / 4) * 2 + i / 2 / (N / 4)) * 2 + i % 2, "ctranspose");
            M((ctransposeinverse<2>(ctranspose<2>(x))), N, i, "ctranspose and back");
        }
        if constexpr (!is_complex<T>) {
        auto z4 = zip(lowhalf(x), highhalf(x), lowhalf(y), highhalf(y));
        bool ok = true;
        for (size_t i = 0; i < N / 2; i++)
            for (size_t j = 0; j < 4; j++) ok &= same<T>(z4[i][j], s[j * (N / 2) + i]);
        sym::check(ok, "zip of four");
        M((column<3>(z4)), N / 2, 3 * (N / 2) + i, "column of four");
        }
    }
    if constexpr ((N & (N - 1)) == 0 && N > 1)
    {
        M((bitreverse(x)), N, ({ size_t r = 0; for (size_t b = 1, c = N / 2; c; b *= 2, c /= 2) if (i & b) r |= c; r; }), "bitreverse");
        M((bitreverse<2>(concat(x, y))), 2 * N, ({ size_t r = 0; for (size_t b = 1, c = N / 2; c; b *= 2, c /= 2) if ((i / 2) & b) r |= c; r * 2 + i % 2; }), "bitreverse groups");
        if constexpr (N == 4 || N == 16 || N == 64)
            M((digitreverse4(x)), N, ({ size_t r = 0; for (size_t b = 1, c = N / 4; c; b *= 4, c /= 4) r += i / b % 4 * c; r; }), "digitreverse4");
    }
}
template <typename T, size_t N>
static __attribute__((noinline)) void squares()
{
    T s[N * N];
    vec<vec<T, N>, N> v;
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { s[i * N + j] = sy<T>("x"); }
    for (size_t i = 0; i < N; i++) v[i] = read<N>(s + i * N);
    auto t = transpose(v);
    bool ok = true;
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) ok &= same<T>(t[i][j], s[j * N + i]);
    sym::check(ok, "transpose of a square matrix");
}
template <typename T, size_t N>
static __attribute__((noinline)) void rotpair()
{
    T s[2 * N];
    vec<T, N> x = in<T, N>(s, "x"), y = in<T, N>(s + N, "y");
    (void)x; (void)y;
    // step form: 0, step, 2*step, ...
    T st = sy<T>("step");
    if constexpr (std::is_integral_v<T>)
    {
        auto e = enumerate(vec_shape<T, N>{}, st);
        bool ok = true;
        for (size_t i = 0; i < N; i++) ok &= e[i] == (T)(i * st);
        sym::check(ok, "enumerate with a step");
        auto e2 = enumerate<T, N>();
        for (size_t i = 0; i < N; i++) ok &= e2[i] == (T)i;
        sym::check(ok, "enumerate");
    }
}
template <typename T, size_t N>
static __attribute__((noinline)) void sorts()
{
    T s[N];
    vec<T, N> x = in<T, N>(s, "x");
    if constexpr (std::is_floating_point_v<T>) for (size_t i = 0; i < N; i++) sym::assume(!sym::isnan_(s[i]));
    vec<T, N> a = sort(x), d = sortdesc(x);
    // a threshold t is passed by exactly the first k outputs, k = number of inputs that pass it (for every t): this is
    // equivalent to "the output is the sorted input"
    T th = sym::any<T>("t");
    if constexpr (std::is_floating_point_v<T>) sym::assume(!sym::isnan_(th));
    size_t le = 0;
    for (size_t i = 0; i < N; i++) le += s[i] <= th;
    for (size_t k = 0; k < N; k++)
    {
        sym::check((a[k] <= th) == (k < le), "ascending order of the input values");
        sym::check((d[N - 1 - k] <= th) == (k < le), "descending order of the input values");
    }
}
// wider vectors: every arrangement of two values p < q (a network of minima and maxima that sorts these sorts everything)
template <typename T, size_t N>
static __attribute__((noinline)) void sorts01()
{
    // p = 0, q = 1, which of them a lane holds is symbolic
    vec<T, N> x;
    size_t np = 0;
    for (size_t i = 0; i < N; i++)
    {
        u8 b = sym::any<u8>("b") & 1;
        np += 1 - b;
        if constexpr (sizeof(T) == 4) { u32 m = (0u - b) & bc<u32>(T(1)); x[i] = bc<T>(m); }
        else if constexpr (sizeof(T) == 8) { u64 m = (u64(0) - b) & bc<u64>(T(1)); x[i] = bc<T>(m); }
        else x[i] = T(b);
    }
    vec<T, N> a = sort(x), d = sortdesc(x);
    for (size_t k = 0; k < N; k++)
    {
        sym::check(((a[k] == T(0)) == (k < np)) & ((a[k] == T(1)) == (k >= np)), "ascending order of two values");
        sym::check(((d[k] == T(1)) == (k < N - np)) & ((d[k] == T(0)) == (k >= N - np)), "descending order of two values");
    }
}
template <typename T, size_t N>
static __attribute__((noinline)) void memory()
{
    // buffers of exactly the size accessed, so that any stray access is a memory error
    T* b = aligned_allocate<T>(N, 1024);
    for (size_t i = 0; i < N; i++) b[i] = sy<T>("m");
    const T* s = b;
    M((read<N>(b)), N, i, "read");
    M((read<N, true>(b)), N, i, "aligned read");
    M((vec<T, N>(b)), N, i, "construct from pointer");
    if constexpr (N > 1) M((read<N - 1>(b + 1)), N - 1, i + 1, "unaligned read");
    T* o = aligned_allocate<T>(N, 1024);
    write(o, read<N>(b));
    bool ok = true;
    for (size_t i = 0; i < N; i++) ok &= same<T>(o[i], b[i]);
    sym::check(ok, "write");
    if constexpr (N > 1)
    {
        T f = o[0];
        write(o + 1, read<N - 1>(b));
        ok = same<T>(f, o[0]);
        for (size_t i = 1; i < N; i++) ok &= same<T>(o[i], b[i - 1]);
        sym::check(ok, "unaligned write touches only its elements");
    }
    write<true>(o, read<N>(b));
    ok = true;
    for (size_t i = 0; i < N; i++) ok &= same<T>(o[i], b[i]);
    sym::check(ok, "aligned write");
}
// strided and indexed access; base index and stride symbolic where the code takes them at run time
template <typename T, size_t N, size_t G>
static __attribute__((noinline)) void strided()
{
    constexpr size_t L = 3 * N * G + G; // elements
    T* b = aligned_allocate<T>(L, 64);
    for (size_t i = 0; i < L; i++) b[i] = sy<T>("m");
    const T* s = b;
    for (size_t stride = 0; stride <= 3; stride++)
    {
        M((gather_stride<N, G>(b, stride)), N * G, i / G * G * stride + i % G, "gather with a stride");
        if (!stride) continue;
        T* o = aligned_allocate<T>(L, 64);
        for (size_t i = 0; i < L; i++) o[i] = T(7);
        T* v = aligned_allocate<T>(N * G, 64);
        for (size_t i = 0; i < N * G; i++) v[i] = b[i];
        scatter_stride<G>(o, read<N * G>(v), stride);
        bool ok = true;
        for (size_t i = 0; i < L; i++)
        {
            size_t g = i / G;
            bool hit = g % stride == 0 && g / stride < N;
            ok &= same<T>(o[i], hit ? v[g / stride * G + i % G] : T(7));
        }
        sym::check(ok, "scatter with a stride");
    }
    if constexpr (G == 1)
    {
        M((gather_stride<N, 3>(b)), N, i * 3, "gather with a constant stride");
        M((gather<2, 0, 5 % L>(b)), 3, i == 0 ? 2 : i == 1 ? 0 : 5 % L, "gather of constant indices");
        M((gather(b, 2, size_t(0), size_t(1))), 3, i == 0 ? 2 : i - 1, "gather of given indices");
    }
}
template <typename T, size_t N, size_t G>
static __attribute__((noinline)) void indexed()
{
    constexpr size_t L = 4;
    T* b = aligned_allocate<T>(L * G, 64);
    for (size_t i = 0; i < L * G; i++) b[i] = sy<T>("m");
    vec<u32, N> idx;
    u32 ix[N];
    for (size_t i = 0; i < N; i++) { ix[i] = (u32)sym::pick("i", 0, L - 1); idx[i] = ix[i]; }
    const T* s = b;
    M((gather<G>(b, idx)), N * G, ix[i / G] * G + i % G, "gather by index vector");
    T v[N * G];
    vec<T, N * G> w = in<T, N * G>(v, "v");
    T* o = aligned_allocate<T>(L * G, 64);
    for (size_t i = 0; i < L * G; i++) o[i] = b[i];
    scatter<G>(o, idx, w);
    bool ok = true;
    for (size_t i = 0; i < L * G; i++)
    {
        T e = b[i];
        for (size_t k = 0; k < N; k++) if (ix[k] == i / G) e = v[k * G + i % G]; // later lanes win
        ok &= same<T>(o[i], e);
    }
    sym::check(ok, "scatter by index vector");
}
template <typename T, size_t C, size_t N, size_t G>
static __attribute__((noinline)) void groups()
{
    for (size_t stride = N; stride <= N + 2; stride++)
    {
        size_t L = G * stride * (C - 1) + N * G;
        T* b = aligned_allocate<T>(L, 64);
        for (size_t i = 0; i < L; i++) b[i] = sy<T>("m");
        const T* s = b;
        auto v = read_group<C, N, G>(b, stride);
        M(v, C * N * G, i / (N * G) * G * stride + i % (N * G), "read_group");
        T* o = aligned_allocate<T>(L, 64);
        for (size_t i = 0; i < L; i++) o[i] = T(7);
        write_group<C, N, G>(o, stride, v);
        bool ok = true;
        for (size_t i = 0; i < L; i++) ok &= same<T>(o[i], i % (G * stride) < N * G ? b[i] : T(7));
        sym::check(ok, "write_group");
    }
}
template <typename T, size_t N>
static __attribute__((noinline)) void pmask()
{
    for (size_t n = 0; n <= N; n++)
    {
        vec<T, N> m = partial_mask<T, N>(n);
        bool ok = true;
        for (size_t i = 0; i < N; i++) { T l = m[i], on = special_constants<T>::allones(); ok &= memcmp(&l, &on, sizeof(T)) == 0 ? i < n : (l == T(0)) & (i >= n); }
        sym::check(ok, "partial_mask selects the first n lanes");
    }
}
#define W(T) (16 / sizeof(T))
#define ALL(T) ENTRY(moves_##T) { moves<T, 1>(); moves<T, 2>(); moves<T, 3>(); moves<T, 4>(); moves<T, 5>(); moves<T, 6>(); moves<T, 7>(); moves<T, 8>(); moves<T, 12>(); moves<T, 16>(); } \
    ENTRY(moves_wide_##T) { if constexpr (sizeof(T) < 16) moves<T, 32>(); if constexpr (sizeof(T) == 1) moves<T, 64>(); } \
    ENTRY(memory_##T) { memory<T, 1>(); memory<T, 2>(); memory<T, 3>(); memory<T, 4>(); memory<T, 5>(); memory<T, 7>(); memory<T, 8>(); memory<T, 12>(); memory<T, 16>(); memory<T, 32>(); memory<T, 64>(); } \
    ENTRY(strided_##T) { strided<T, 1, 1>(); strided<T, 2, 1>(); strided<T, 3, 1>(); strided<T, 4, 1>(); strided<T, 8, 1>(); strided<T, 7, 1>(); } \
    ENTRY(indexed1_##T) { indexed<T, 1, 1>(); } ENTRY(indexed2_##T) { indexed<T, 2, 1>(); } ENTRY(indexed3_##T) { indexed<T, 3, 1>(); } ENTRY(indexedg_##T) { indexed<T, 2, 2>(); } \
    ENTRY(groups_##T) { groups<T, 2, 4, 1>(); groups<T, 4, 2, 1>(); groups<T, 4, 4, 1>(); groups<T, 2, 2, 2>(); groups<T, 3, 1, 2>(); groups<T, 8, 1, 1>(); }
ALL(u8) ALL(i16) ALL(u32) ALL(f32) ALL(i64) ALL(f64)
using c32 = complex<f32>; using c64 = complex<f64>;
#define ALLC(T) ENTRY(moves_##T) { moves<T, 1>(); moves<T, 2>(); moves<T, 3>(); moves<T, 4>(); moves<T, 8>(); } \
    ENTRY(memory_##T) { memory<T, 1>(); memory<T, 2>(); memory<T, 3>(); memory<T, 4>(); memory<T, 8>(); memory<T, 16>(); }
ALLC(c32) ALLC(c64)
ENTRY(squares) { squares<u8, 2>(); squares<u8, 4>(); squares<u8, 8>(); squares<f32, 1>(); squares<f32, 2>(); squares<f32, 3>(); squares<f32, 4>(); squares<f32, 8>(); squares<f64, 4>(); squares<i16, 5>(); }
#define SRT(T) ENTRY(sort_##T) { sorts<T, 4>(); }
SRT(u8) SRT(i8) SRT(u16) SRT(i32) SRT(u32)
#define SRT2(T) ENTRY(sort8_##T) { sorts01<T, 8>(); }
SRT2(u8) SRT2(i16) SRT2(u32) SRT2(i64) SRT2(u64) SRT2(f32) SRT2(f64)
#if THOROUGH
SRT(i64) SRT(f32) SRT(u64)
ENTRY(sort12_f32) { sorts01<f32, 12>(); }
#endif
ENTRY(pmask) { pmask<u8, 16>(); pmask<u8, 32>(); pmask<u32, 4>(); pmask<u32, 7>(); pmask<u64, 2>(); pmask<f32, 4>(); pmask<i16, 8>(); }
ENTRY(enumerate) { rotpair<u8, 3>(); rotpair<u8, 16>(); rotpair<i16, 8>(); rotpair<u32, 1>(); rotpair<u32, 2>(); rotpair<u32, 4>(); rotpair<u32, 5>(); rotpair<i32, 8>(); rotpair<i64, 4>(); rotpair<u64, 7>(); }
