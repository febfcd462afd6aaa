// Expressions: element i of an expression is what its definition says, whatever the vector width, start, length and
// destination; generators do not depend on how their output is divided.
#include "sym.h"
#include <kfr/base.hpp>
using namespace kfr;
template <typename T> static univector<T> symv(size_t n)
{
    univector<T> v(n);
    for (auto& x : v) x = sym::any<T>("x");
    return v;
}
// every process() width, start and length; nothing outside [start, start+size) is written
template <size_t W, typename T, typename E, typename F>
static void part(const E& e, size_t n, size_t start, size_t size, F&& want)
{
    univector<T> out(n + 3);
    T guard = T(77);
    for (auto& o : out) o = guard;
    auto stop = process<W>(make_univector(out.data(), n), e, shape<1>(start), shape<1>(size));
    size_t end = std::min(start + size, n);
    sym::check(stop[0] == end, "process() returns the end of the range");
    bool clean = true;
    for (size_t i = 0; i < out.size(); i++)
        if (i >= start && i < end) sym::check(sym::same<T>(out[i], want(i)), "element of an expression");
        else clean &= sym::same<T>(out[i], guard);
    sym::check(clean, "nothing is written outside the range");
}
template <typename T, bool Handle = true, typename E, typename F> static __attribute__((noinline)) void every(const E& e, size_t n, F&& want, size_t maxstart = 3)
{
    size_t sh = get_shape(e)[0];
    sym::check(sh == n || sh == infinite_size, "size of an expression");
    if constexpr (is_infinite<E>) // the destination ends the range
    {
        univector<T> out(n);
        out = e;
        bool ok = true;
        for (size_t i = 0; i < n; i++) sym::check(sym::same<T>(out[i], want(i)), "element of an assigned expression");
        sym::check(ok, "assignment of an endless expression fills the destination");
        for (size_t s = 0; s <= std::min(n, maxstart); s++)
        {
            part<0, T>(truncate(e, shape<1>(n)), n, s, n - s, want);
            part<1, T>(truncate(e, shape<1>(n)), n, s, n - s, want);
            part<4, T>(truncate(e, shape<1>(n)), n, s, n - s, want);
        }
    }
    else
    {
        univector<T> out = e;
        bool ok = out.size() == n;
        for (size_t i = 0; i < n; i++) sym::check(sym::same<T>(out[i], want(i)), "element of an assigned expression");
        sym::check(ok, "construction from an expression");
        univector<T> cut(n);
        cut = e;
        ok = cut.size() == n;
        for (size_t i = 0; i < n; i++) sym::check(sym::same<T>(cut[i], want(i)), "element of an assigned expression");
        sym::check(ok, "assignment of an expression");
        if constexpr (Handle)
        {
            auto h = to_handle(e);
            univector<T> vh(n);
            vh = h;
            ok = true;
            for (size_t i = 0; i < n; i++) ok &= sym::same<T>(vh[i], want(i));
            sym::check(ok, "evaluation through a type-erased handle");
        }
        auto r = render(e);
        ok = r.size() == n;
        for (size_t i = 0; i < n; i++) ok &= sym::same<T>(r[i], want(i));
        sym::check(ok, "render()");
    }
}
// for expressions that cannot construct a univector
template <typename T, typename E, typename F> static __attribute__((noinline)) void assigned(const E& e, size_t n, F&& want)
{
    sym::check(get_shape(e)[0] == n, "size of an expression");
    univector<T> out(n);
    out = e;
    bool ok = true;
    for (size_t i = 0; i < n; i++) ok &= sym::same<T>(out[i], want(i));
    sym::check(ok, "assignment of an expression");
}
template <typename T, typename E, typename F> static __attribute__((noinline)) void parts(const E& e, size_t n, F&& want)
{
    for (size_t s = 0; s <= std::min<size_t>(n, 3); s++)
        for (size_t len : { (size_t)0, (size_t)1, n / 2, n - s, n + 5 })
        {
            part<0, T>(e, n, s, len, want);
            part<1, T>(e, n, s, len, want);
            part<2, T>(e, n, s, len, want);
            part<4, T>(e, n, s, len, want);
            part<8, T>(e, n, s, len, want);
        }
}
// what: evaluates one kind of expression for lengths around the vector widths
#define LENS { 0, 1, 2, 3, 5, 8, 9, 15, 17, 31, 33, 40 }
template <typename T> static __attribute__((noinline)) void pointwise()
{
    for (size_t n : LENS)
    {
        univector<T> x = symv<T>(n), y = symv<T>(n);
        T k = sym::any<T>("k");
        auto both = [&](auto&& e, auto&& f) { every<T>(e, n, f); if (n == 5 || n == 17) parts<T>(e, n, f); };
        both(x + y, [&](size_t i) { return T(x[i] + y[i]); });
        both(x - k, [&](size_t i) { return T(x[i] - k); });
        both(k - x, [&](size_t i) { return T(k - x[i]); });
        both(bind_expression([](auto a) { return a + a; }, x), [&](size_t i) { return T(x[i] + x[i]); });
        every<T>(dimensions<1>(scalar(k)), n, [&](size_t) { return k; });
        if constexpr (std::is_integral_v<T>)
        {
            both(x * y, [&](size_t i) { return T(x[i] * y[i]); });
            both((x & y) | k, [&](size_t i) { return T((x[i] & y[i]) | k); });
            both((x ^ y) + ~x, [&](size_t i) { return T((x[i] ^ y[i]) + ~x[i]); });
            both(min(x, y), [&](size_t i) { return x[i] < y[i] ? x[i] : y[i]; });
            both(max(x, k), [&](size_t i) { return x[i] > k ? x[i] : k; });
        }
        else
        {
            both(-x, [&](size_t i) { return T(-x[i]); });
            if (n != 5 && n != 17) continue;
            both(min(x, y), [&](size_t i) { return x[i] < y[i] ? x[i] : y[i]; });
            both(select(x < y, x, k), [&](size_t i) { return x[i] < y[i] ? x[i] : k; });
        }
    }
}
ENTRY(pointwise_i32) { pointwise<int32_t>(); }
ENTRY(pointwise_u8) { pointwise<uint8_t>(); }
ENTRY(pointwise_f32) { pointwise<float>(); }
ENTRY(pointwise_f64) { pointwise<double>(); }
ENTRY(mixed_types)
{
    for (size_t n : { 0, 1, 3, 8, 9, 17, 33 })
    {
        univector<int16_t> x = symv<int16_t>(n);
        univector<int32_t> y = symv<int32_t>(n);
        every<int32_t>(x + y, n, [&](size_t i) { return x[i] + y[i]; });
        every<int16_t, false>(cast<int16_t>(y), n, [&](size_t i) { return (int16_t)y[i]; });
        every<float, false>(cast<float>(x), n, [&](size_t i) { return (float)x[i]; });
        every<double, false>(cast<double>(y) + cast<double>(x), n, [&](size_t i) { return (double)y[i] + (double)x[i]; });
    }
}
ENTRY(compound_assign)
{
    for (size_t n : { 0, 1, 3, 8, 9, 17, 33 })
    {
        univector<int32_t> x = symv<int32_t>(n), y = symv<int32_t>(n), o = x;
        x += y; x *= y; x -= o; x ^= y; x |= o; x &= y + 1;
        bool ok = true;
        for (size_t i = 0; i < n; i++)
        {
            int32_t v = o[i];
            v += y[i]; v *= y[i]; v -= o[i]; v ^= y[i]; v |= o[i]; v &= y[i] + 1;
            ok &= x[i] == v;
        }
        sym::check(ok, "compound assignment");
    }
}
template <typename T> static __attribute__((noinline)) void structure()
{
    for (size_t n : LENS)
    {
        univector<T> x = symv<T>(n);
        const T k = sym::any<T>("k");
        for (size_t s : { 0, 1, 3, 8 })
            for (size_t len : { 0, 1, 4, 9, 100 })
            {
                size_t m = n > s ? std::min(n - s, len) : 0;
                every<T, false>(slice(x, shape<1>(s), shape<1>(len)), m, [&](size_t i) { return x[i + s]; });
            }
        for (size_t len : { 0, 1, 5, 16, 100 }) every<T, false>(truncate(x, shape<1>(len)), std::min(n, len), [&](size_t i) { return x[i]; });
        every<T>(reverse(x), n, [&](size_t i) { return x[n - 1 - i]; });
        every<T>(reverse(reverse(x)), n, [&](size_t i) { return x[i]; });
        every<T>(padded(x, k), n + 21, [&](size_t i) { return i < n ? x[i] : k; });
        every<T, false>(truncate(padded(x, k), shape<1>(n + 5)), n + 5, [&](size_t i) { return i < n ? x[i] : k; });
        every<T, false>(truncate(padded(slice(x, shape<1>(2)), k), shape<1>(20)), 20, [&](size_t i) { return i + 2 < n ? x[i + 2] : k; });
        every<T, false>(slice(padded(x, k), shape<1>(3), shape<1>(n + 2)), n + 2, [&](size_t i) { return i + 3 < n ? x[i + 3] : k; });
        if (n < 18)
        {
            parts<T>(reverse(x), n, [&](size_t i) { return x[n - 1 - i]; });
            parts<T>(truncate(padded(x, k), shape<1>(n + 5)), n + 5, [&](size_t i) { return i < n ? x[i] : k; });
        }
    }
}
ENTRY(structure_f32) { structure<float>(); }
ENTRY(structure_i16) { structure<int16_t>(); }
ENTRY(concatenation_f32)
{
    for (size_t n : { 0, 1, 3, 7, 8, 16, 17 })
        for (size_t m : { 0, 1, 2, 5, 8, 19 })
        {
            univector<float> x = symv<float>(n), y = symv<float>(m), z = symv<float>(3);
            auto two = [&](size_t i) { return i < n ? x[i] : y[i - n]; };
            assigned<float>(concatenate(x, y), n + m, two);
            parts<float>(concatenate(x, y), n + m, two);
            assigned<float>(concatenate(x, y, z), n + m + 3, [&](size_t i) { return i < n ? x[i] : i < n + m ? y[i - n] : z[i - n - m]; });
            univector<float> r(n + m);
            r = concatenate(univector<float>(x), univector<float>(y));
            bool ok = true;
            for (size_t i = 0; i < n + m; i++) ok &= sym::same(r[i], two(i));
            sym::check(ok, "concatenation of temporaries");
        }
}
ENTRY(concatenation_2d)
{
    for (size_t a : { 1, 3, 17 })
        for (size_t b : { 1, 2, 9 })
        {
            const size_t c = 5;
            tensor<int32_t, 2> x(shape<2>(a, c)), y(shape<2>(b, c)), r(shape<2>(a + b, c));
            for (size_t i = 0; i < a * c; i++) x.data()[i] = sym::any<int32_t>("x");
            for (size_t i = 0; i < b * c; i++) y.data()[i] = sym::any<int32_t>("y");
            process(r, concatenate<0>(x, y));
            bool ok = true;
            for (size_t i = 0; i < (a + b) * c; i++) ok &= r.data()[i] == (i < a * c ? x.data()[i] : y.data()[i - a * c]);
            sym::check(ok, "concatenation along the first axis");
            tensor<int32_t, 2> u(shape<2>(c, a)), v(shape<2>(c, b)), s(shape<2>(c, a + b));
            for (size_t i = 0; i < a * c; i++) u.data()[i] = sym::any<int32_t>("u");
            for (size_t i = 0; i < b * c; i++) v.data()[i] = sym::any<int32_t>("v");
            process(s, concatenate<1>(u, v));
            ok = true;
            for (size_t i = 0; i < c; i++)
                for (size_t j = 0; j < a + b; j++) ok &= s.data()[i * (a + b) + j] == (j < a ? u.data()[i * a + j] : v.data()[i * b + j - a]);
            sym::check(ok, "concatenation along the last axis");
        }
}
template <typename T> static __attribute__((noinline)) void packing()
{
    for (size_t n : LENS)
    {
        univector<T> x = symv<T>(n), y = symv<T>(n), z = symv<T>(n), w = symv<T>(n);
        univector<vec<T, 2>> p(n);
        p = pack(x, y);
        univector<vec<T, 4>> q(n);
        q = pack(x, y, z, w);
        bool ok = true;
        for (size_t i = 0; i < n; i++) ok &= sym::same<T>(p[i][0], x[i]) & sym::same<T>(p[i][1], y[i]) & sym::same<T>(q[i][0], x[i]) & sym::same<T>(q[i][1], y[i]) & sym::same<T>(q[i][2], z[i]) & sym::same<T>(q[i][3], w[i]);
        sym::check(ok, "pack()");
        univector<T> a(n), b(n), c(n), d(n), e(n), f(n);
        unpack(a, b) = p;
        unpack(c, d, e, f) = q;
        ok = true;
        for (size_t i = 0; i < n; i++) ok &= sym::same<T>(a[i], x[i]) & sym::same<T>(b[i], y[i]) & sym::same<T>(c[i], x[i]) & sym::same<T>(d[i], y[i]) & sym::same<T>(e[i], z[i]) & sym::same<T>(f[i], w[i]);
        sym::check(ok, "unpack()");
        univector<T> g(n), h(n);
        pack(g, h) = p;
        ok = true;
        for (size_t i = 0; i < n; i++) ok &= sym::same<T>(g[i], x[i]) & sym::same<T>(h[i], y[i]);
        sym::check(ok, "pack() as a destination");
    }
}
ENTRY(packing_f32) { packing<float>(); }
ENTRY(packing_i32) { packing<int32_t>(); }
ENTRY(packing_f64) { packing<double>(); }
ENTRY(sequential)
{
    for (size_t n : LENS)
    {
        univector<int32_t> x = symv<int32_t>(n);
        univector<int32_t> r(n);
        r = adjacent([](auto a, auto b) { return a - b; }, x);
        bool ok = true;
        for (size_t i = 0; i < n; i++) ok &= r[i] == (i ? x[i] - x[i - 1] : x[i]);
        sym::check(ok, "adjacent()");
        // divided in two passes
        for (size_t k = 0; k <= n; k += 3)
        {
            auto e = adjacent([](auto a, auto b) { return a - b; }, x);
            univector<int32_t> q(n);
            process<4>(q, e, shape<1>(0), shape<1>(k));
            process<8>(q, e, shape<1>(k), shape<1>(n - k));
            ok = true;
            for (size_t i = 0; i < n; i++) ok &= q[i] == (i ? x[i] - x[i - 1] : x[i]);
            sym::check(ok, "adjacent() evaluated in two parts");
        }
        int c = 0;
        univector<int32_t> g(n);
        g = lambda_generator<int32_t>([&]() { return c++; });
        ok = true;
        for (size_t i = 0; i < n; i++) ok &= g[i] == (int)i;
        sym::check(ok, "lambda generator is called once per element, in order");
    }
}
ENTRY(counters)
{
    int32_t s = sym::any<int32_t>("start"), d = sym::any<int32_t>("step");
    for (size_t n : { 0, 1, 5, 9, 17, 33 })
    {
        every<int32_t>(counter(s), n, [&](size_t i) { return s + (int32_t)i; });
        every<int32_t>(counter(s, d), n, [&](size_t i) { return s + (int32_t)i * d; });
        every<int32_t>(sequence(s, d, 5), n, [&](size_t i) { return i % 3 == 0 ? s : i % 3 == 1 ? d : 5; });
        every<int32_t>(lambda<int32_t>([&](size_t i) { return (int32_t)i ^ s; }), n, [&](size_t i) { return (int32_t)i ^ s; });
        every<int32_t>(reverse(truncate(counter(s), shape<1>(n))), n, [&](size_t i) { return s + (int32_t)(n - 1 - i); });
    }
    int32_t e = sym::any<int32_t>("step2");
    tensor<int32_t, 2> t(shape<2>(5, 19));
    t = counter(s, d, e);
    bool ok = true;
    for (int i = 0; i < 5; i++)
        for (int j = 0; j < 19; j++) ok &= t(i, j) == s + i * d + j * e;
    sym::check(ok, "two-dimensional counter");
    tensor<int32_t, 2> u(shape<2>(19, 5));
    process<4, 0>(u, counter(s, d, e));
    ok = true;
    for (int i = 0; i < 19; i++)
        for (int j = 0; j < 5; j++) ok &= u(i, j) == s + i * d + j * e;
    sym::check(ok, "two-dimensional counter along the first axis");
    process<4, 0>(u, lambda<int32_t, 2>([&](shape<2> i) { return (int32_t)(i[0] * 100 + i[1]) + s; }));
    ok = true;
    for (int i = 0; i < 19; i++)
        for (int j = 0; j < 5; j++) ok &= u(i, j) == i * 100 + j + s;
    sym::check(ok, "two-dimensional lambda along the first axis");
}
template <typename T> static __attribute__((noinline)) void linspaces()
{
    T a = sym::ranged<T>("a", -1, 1), b = sym::ranged<T>("b", -1, 1);
    double tol = sizeof(T) == 4 ? 2e-5 : 2e-14;
    for (size_t n : { 1, 2, 3, 5, 8, 17, 33 })
    {
        univector<T> v = linspace(a, b, n, false, ctrue), w = linspace(a, b, n, true, ctrue), m = symmlinspace(b, n, ctrue);
        sym::check(v.size() == n && w.size() == n && m.size() == n, "size of linspace");
        univector<T> o = truncate(linspace(a, b, n), shape<1>(2 * n));
        sym::check(o.size() == 2 * n, "linspace without end");
        for (size_t i = 0; i < 2 * n; i++)
        {
            double vals[2] = { a, b };
            double t = (double)i / n, u = n > 1 ? (double)i / (n - 1) : 0;
            double c[2] = { 1 - t, t }, d[2] = { 1 - u, u }, e[2] = { 0, 2 * u - 1 };
            __sym_close_lin((double)o[i], vals, c, 2, tol, "linspace without end");
            if (i >= n) continue;
            __sym_close_lin((double)v[i], vals, c, 2, tol, "linspace without endpoint");
            __sym_close_lin((double)w[i], vals, d, 2, tol, "linspace with endpoint");
            __sym_close_lin((double)m[i], vals, e, 2, tol, "symmlinspace");
        }
    }
}
ENTRY(linspaces_f32) { linspaces<float>(); }
ENTRY(linspaces_f64) { linspaces<double>(); }
// ---------------------------------------------------------------- more dimensions
template <size_t D> static __attribute__((noinline)) void nd(shape<D> sh)
{
    tensor<int32_t, D> x(sh), y(sh);
    size_t n = sh.product();
    for (size_t i = 0; i < n; i++) { x.data()[i] = sym::any<int32_t>("x"); y.data()[i] = sym::any<int32_t>("y"); }
    auto eq = [&](const tensor<int32_t, D>& r, auto&& f, const char* m)
    {
        bool ok = true;
        for (size_t i = 0; i < n; i++) ok &= r.data()[i] == f(i);
        sym::check(ok, m);
    };
    tensor<int32_t, D> r(sh);
    process(r, x + y);
    eq(r, [&](size_t i) { return x.data()[i] + y.data()[i]; }, "sum of arrays");
    process(r, reverse(x));
    eq(r, [&](size_t i) { return x.data()[n - 1 - i]; }, "reversed array");
    // part of the array: start and size along every axis
    for (int w = 0; w < 2; w++)
    {
        shape<D> st, sz;
        for (size_t d = 0; d < D; d++) { st[d] = sh[d] > 1; sz[d] = sh[d] > 2 ? sh[d] - 2 : 1; }
        for (size_t i = 0; i < n; i++) r.data()[i] = -5;
        if (w) process<4>(r, x - y, st, sz);
        else process(r, x - y, st, sz);
        eq(r, [&](size_t i)
           {
               size_t q = i;
               bool in = true;
               for (size_t d = D; d-- > 0;) { size_t k = q % sh[d]; q /= sh[d]; in &= k >= st[d] && k < st[d] + sz[d]; }
               return in ? x.data()[i] - y.data()[i] : -5;
           }, "part of an array");
    }
}
ENTRY(arrays_2d) { nd<2>({ 1, 1 }); nd<2>({ 3, 5 }); nd<2>({ 4, 16 }); nd<2>({ 2, 40 }); nd<2>({ 7, 33 }); }
ENTRY(arrays_3d) { nd<3>({ 2, 3, 5 }); nd<3>({ 3, 1, 18 }); nd<3>({ 1, 4, 33 }); }
ENTRY(arrays_45d) { nd<4>({ 2, 3, 2, 9 }); nd<5>({ 2, 3, 2, 3, 5 }); nd<5>({ 1, 3, 1, 2, 17 }); }
template <size_t W> static void rsp(size_t a, size_t b)
{
    tensor<int32_t, 2> x(shape<2>(a, b));
    size_t n = a * b;
    for (size_t i = 0; i < n; i++) x.data()[i] = sym::any<int32_t>("x");
    univector<int32_t> f(n), g = symv<int32_t>(n);
    process<W>(f, reshape(x, shape<1>(n)));
    bool ok = true;
    for (size_t i = 0; i < n; i++) ok &= f[i] == x.data()[i];
    sym::check(ok, "reshape to one dimension");
    tensor<int32_t, 2> t(shape<2>(a, b)), u(shape<2>(b, a));
    process<W>(t, reshape(g, shape<2>(a, b)));
    process<W>(u, reshape(x, shape<2>(b, a)));
    ok = true;
    for (size_t i = 0; i < n; i++) ok &= (t.data()[i] == g[i]) & (u.data()[i] == x.data()[i]);
    sym::check(ok, "reshape to two dimensions");
    process<W, 0>(t, reshape(g, shape<2>(a, b)));
    ok = true;
    for (size_t i = 0; i < n; i++) ok &= t.data()[i] == g[i];
    sym::check(ok, "reshape along the first axis");
    for (size_t i = 0; i < n; i++) t.data()[i] = -1;
    auto w = reshape(t, shape<1>(n));
    process<W>(w, g);
    ok = true;
    for (size_t i = 0; i < n; i++) ok &= t.data()[i] == g[i];
    sym::check(ok, "writing through a reshape");
    for (size_t i = 0; i < n; i++) f[i] = -1;
    auto v = reshape(f, shape<2>(b, a));
    process<W>(v, u);
    ok = true;
    for (size_t i = 0; i < n; i++) ok &= f[i] == u.data()[i];
    sym::check(ok, "writing through a reshape to two dimensions");
}
ENTRY(reshapes)
{
    for (size_t a : { 1, 2, 3, 4, 7 })
        for (size_t b : { 1, 2, 3, 5, 9 }) { rsp<0>(a, b); rsp<1>(a, b); rsp<2>(a, b); rsp<4>(a, b); rsp<8>(a, b); }
}
ENTRY(broadcast)
{
    for (size_t a : { 1, 3, 8 })
        for (size_t b : { 1, 2, 9, 17 })
        {
            tensor<int32_t, 2> col(shape<2>(a, 1)), row(shape<2>(1, b)), r(shape<2>(a, b));
            univector<int32_t> line = symv<int32_t>(b);
            for (size_t i = 0; i < a; i++) col.data()[i] = sym::any<int32_t>("c");
            for (size_t i = 0; i < b; i++) row.data()[i] = sym::any<int32_t>("r");
            auto eq = [&](auto&& f, const char* m)
            {
                bool ok = true;
                for (size_t i = 0; i < a; i++)
                    for (size_t j = 0; j < b; j++) ok &= r.data()[i * b + j] == f(i, j);
                sym::check(ok, m);
            };
            process(r, col + row);
            eq([&](size_t i, size_t j) { return col.data()[i] + row.data()[j]; }, "column plus row");
            process<4, 0>(r, col - row);
            eq([&](size_t i, size_t j) { return col.data()[i] - row.data()[j]; }, "column minus row along the first axis");
            process(r, col * line);
            eq([&](size_t i, size_t j) { return col.data()[i] * line[j]; }, "column times one-dimensional expression");
            process(r, line + 3);
            eq([&](size_t, size_t j) { return line[j] + 3; }, "one-dimensional expression repeated in every row");
            process(r, dimensions<2>(line));
            eq([&](size_t i, size_t j) { return line[j]; }, "dimensions()");
        }
}
// generators: started from any state, the samples follow the recurrence whatever the widths and however the output is
// divided. coef(i, j): real coefficient of state component j in scalar output i
template <typename T, typename V, typename G, typename F>
static __attribute__((noinline)) void gen(const G& make, F&& coef, double tol)
{
    constexpr size_t n = 37, per = sizeof(V) / sizeof(T);
    for (int mode = 0; mode < 8; mode++)
    {
        auto g = make();
        constexpr size_t S = sizeof(g.value) / sizeof(T);
        double vals[S], c[S];
        alignas(64) T st[S];
        for (size_t j = 0; j < S; j++) vals[j] = st[j] = sym::ranged<T>("state", -1, 1);
        memcpy(&g.value, st, sizeof(st));
        univector<V> o(n);
        const size_t cut = (size_t[]){ 0, 0, 1, 3, 7, 8, 16, 20 }[mode];
        if (mode == 0) o = g;
        else if (mode == 1) process<1>(o, g);
        else
        {
            process<4>(o, g, shape<1>(0), shape<1>(cut));
            process<8>(o, g, shape<1>(cut), shape<1>(5));
            process<0>(o, g, shape<1>(cut + 5), shape<1>(n));
        }
        const T* r = (const T*)o.data();
        for (size_t i = 0; i < n * per; i++)
        {
            for (size_t j = 0; j < S; j++) c[j] = coef(i, j, S);
            __sym_close_lin((double)r[i], vals, c, S, tol, "generated sample");
        }
    }
    // start value
    univector<V> o(n);
    o = make();
}
template <typename T> static __attribute__((noinline)) void gens()
{
    const double tol = sizeof(T) == 4 ? 1e-3 : 1e-11;
    for (double d : { 0.25, -0.1, 0.013 })
    {
        auto rot = [&](bool im_out, bool im_in, double ph) { return im_out ? (im_in ? std::cos(ph) : std::sin(ph)) : (im_in ? -std::sin(ph) : std::cos(ph)); };
        gen<T, T>([&] { return gen_exp(T(0.5), T(d)); }, [&](size_t i, size_t j, size_t w) { return i % w == j ? std::exp(d * (i - j)) : 0.0; }, tol * std::exp(std::abs(d) * 37));
        gen<T, T>([&] { return gen_exp2(T(0.5), T(d)); }, [&](size_t i, size_t j, size_t w) { return i % w == j ? std::exp2(d * (i - j)) : 0.0; }, tol * std::exp2(std::abs(d) * 37));
        gen<T, complex<T>>([&] { return gen_expj(T(0.5), T(d)); }, [&](size_t i, size_t j, size_t w) { return i / 2 % (w / 2) == j / 2 ? rot(i & 1, j & 1, d * (i / 2 - j / 2)) : 0.0; }, tol);
        gen<T, T>([&] { return gen_cossin(T(0.5), T(d)); }, [&](size_t i, size_t j, size_t w) { return i / 2 % (w / 2) == j / 2 ? rot(i & 1, j & 1, d * (i / 2 - j / 2)) : 0.0; }, tol);
        gen<T, T>([&] { return gen_sin(T(0.5), T(d)); }, [&](size_t i, size_t j, size_t w) { return i % (w / 2) == j / 2 ? rot(true, j & 1, d * (i - j / 2)) : 0.0; }, tol);
        // starting at a given phase
        univector<T> e(40), e2(40), cs(40), si(40);
        univector<complex<T>> ej(40);
        const double a = 0.7;
        e = gen_exp(T(a), T(d)); e2 = gen_exp2(T(a), T(d)); cs = gen_cossin(T(a), T(d)); si = gen_sin(T(a), T(d)); ej = gen_expj(T(a), T(d));
        for (size_t i = 0; i < 40; i++)
        {
            double p = a + d * i, q = a + d * (i / 2);
            __sym_close((double)e[i], std::exp(p), tol * std::exp(std::abs(d) * 40) * 2, "gen_exp");
            __sym_close((double)e2[i], std::exp2(p), tol * std::exp2(std::abs(d) * 40) * 2, "gen_exp2");
            __sym_close((double)cs[i], i & 1 ? std::sin(q) : std::cos(q), tol, "gen_cossin");
            __sym_close((double)si[i], std::sin(p), tol, "gen_sin");
            __sym_close((double)ej[i].real(), std::cos(p), tol, "gen_expj real part");
            __sym_close((double)ej[i].imag(), std::sin(p), tol, "gen_expj imaginary part");
        }
    }
    for (int mode = 0; mode < 6; mode++)
    {
        T a = sym::ranged<T>("start", -1, 1), d = sym::ranged<T>("step", -1, 1);
        auto g = gen_linear(a, d);
        univector<T> o(37);
        const size_t cut = (size_t[]){ 0, 1, 3, 7, 8, 16 }[mode];
        process<4>(o, g, shape<1>(0), shape<1>(cut));
        process<8>(o, g, shape<1>(cut), shape<1>(5));
        process<0>(o, g, shape<1>(cut + 5), shape<1>(37));
        for (size_t i = 0; i < 37; i++)
        {
            double v[2] = { a, d }, c[2] = { 1, (double)i };
            __sym_close_lin((double)o[i], v, c, 2, tol * 10, "gen_linear");
        }
    }
}
ENTRY(generators_f32) { gens<float>(); }
ENTRY(generators_f64) { gens<double>(); }
// the same expression with other arguments, static sizes, fixed shapes
ENTRY(rebinding)
{
    for (size_t n : { 1, 5, 17 })
    {
        univector<int32_t> x = symv<int32_t>(n), y = symv<int32_t>(n), z = symv<int32_t>(n);
        auto e = x - y;
        every<int32_t>(rebind(e, z, x), n, [&](size_t i) { return z[i] - x[i]; });
        every<int32_t>(x - y + z, n, [&](size_t i) { return x[i] - y[i] + z[i]; });
    }
    univector<int32_t, 19> a, b, r;
    univector<int32_t> d = symv<int32_t>(19);
    for (auto& v : a) v = sym::any<int32_t>("a");
    for (auto& v : b) v = sym::any<int32_t>("b");
    r = a - b + d;
    univector<int32_t, 19> f = fixshape(truncate(counter(), shape<1>(19)), fixed_shape<19>) + a, q = reverse(a);
    bool ok = true;
    for (size_t i = 0; i < 19; i++) ok &= (r[i] == a[i] - b[i] + d[i]) & (f[i] == (int)i + a[i]) & (q[i] == a[18 - i]);
    sym::check(ok, "arrays of static size");
    univector<int32_t, 19> k = render(slice(a, shape<1>(4)) | 0), m;
    m = padded(truncate(slice(a, shape<1>(4)), shape<1>(9)), b[0]);
    ok = true;
    for (size_t i = 0; i < 19; i++) ok &= m[i] == (i < 9 ? a[i + 4] : b[0]);
    sym::check(ok, "padded slice of an array of static size");
}
