// Tensors: shape arithmetic, slicing, views, iteration, reshaping; matrix transposition in and out of place.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/base/tensor.hpp>
using namespace kfr;
using I = int64_t;
// ---- slicing: all sizes, starts and stops (Python semantics) ----
struct sl { I off, dist, a; };
static sl pyslice(I n, bool hs, I start, bool he, I stop, I step)
{
    I lo = step < 0 ? -1 : 0, hi = step < 0 ? n - 1 : n;
    auto adj = [&](I v) { I m = v >> 63; v += m & n; v = v < lo ? lo : v; return v > hi ? hi : v; };
    I s = hs ? adj(start) : (step < 0 ? hi : lo), e = he ? adj(stop) : (step < 0 ? lo : hi);
    I d = step < 0 ? s - e : e - s, a = step < 0 ? -step : step;
    return { s, d > 0 ? d : 0, a };
}
// count elements of stride a fill a distance of d (no division in the oracle)
static bool fills(I count, sl w) { return (count >= 0) & (count <= w.dist) & (count * w.a >= w.dist) & ((w.dist == 0) | ((count - 1) * w.a < w.dist)); }
// small: narrow symbols keep the division by the step decidable
static I small(const char* n) { return (int16_t)__sym_int(n, 16) >> 7; }
static I sidx(const char* n) { I v = (I)__sym_int(n, 64); sym::assume((v >= -70000) & (v <= 70000)); return v; }
static opt_index_t opt(bool h, I v) { return h ? opt_index_t(v) : opt_index_t(); }
static __attribute__((noinline)) void slice1(I step, bool hs, bool he)
{
    static float store[1];
    bool wide = step == 1;
    I n = wide ? (I)sym::range("n", 0, 65536) : (I)(__sym_int("n", 16) >> 9), a = wide ? sidx("start") : small("start"), b = wide ? sidx("stop") : small("stop");
    tensor<float, 1> t(store, shape<1>((index_t)n), shape<1>(3), nullptr);
    tensor<float, 1> r = t(trange(opt(hs, a), opt(he, b), step));
    sl w = pyslice(n, hs, a, he, b, step);
    sym::check(fills((I)r.shape()[0], w), "number of elements in a slice");
    sym::check((w.dist == 0) | ((char*)r.data() - (char*)store == w.off * 12), "first element of a slice");
    sym::check((w.dist <= w.a) | ((I)r.strides()[0] == 3 * step), "step of a slice");
}
#define SL(nm, st) ENTRY(slice_step_##nm) { for (int f = 0; f < 4; f++) slice1(st, f & 1, f & 2); }
SL(p1, 1) SL(p2, 2) SL(p3, 3) SL(p7, 7) SL(m1, -1) SL(m2, -2) SL(m3, -3) SL(m5, -5)
ENTRY(slice_helpers)
{
    static float store[1];
    I n = 1 + (I)(__sym_int("n", 16) >> 9), a = small("a");
    tensor<float, 1> t(store, shape<1>((index_t)n), nullptr);
    auto cmp = [&](tensor<float, 1> x, sl w, const char* m) { sym::check(fills((I)x.shape()[0], w) & ((w.dist == 0) | ((char*)x.data() - (char*)store == w.off * 4)), m); };
    cmp(t(tall()), pyslice(n, false, 0, false, 0, 1), "tall");
    cmp(t(tstart(a)), pyslice(n, true, a, false, 0, 1), "tstart");
    cmp(t(tstart(a, 2)), pyslice(n, true, a, false, 0, 2), "tstart with step");
    cmp(t(tstop(a)), pyslice(n, false, 0, true, a, 1), "tstop");
    cmp(t(tstop(a, -2)), pyslice(n, false, 0, true, a, -2), "tstop with step");
    cmp(t(tstep(3)), pyslice(n, false, 0, false, 0, 3), "tstep");
    cmp(t(tstep(-3)), pyslice(n, false, 0, false, 0, -3), "negative tstep");
}
ENTRY(slice_2d)
{
    static float store[1];
    I n0 = 1 + (I)(__sym_int("n0", 16) >> 9), n1 = 1 + (I)(__sym_int("n1", 16) >> 9), i = small("i"), a = small("a"), b = small("b");
    tensor<float, 2> t(store, shape<2>((index_t)n0, (index_t)n1), shape<2>(300, 1), nullptr);
    sl w = pyslice(n1, true, a, true, b, 2), v = pyslice(n0, false, 0, true, b, -1);
    auto r = t(trange(opt(false, 0), b, -1), trange(a, b, 2));
    sym::check(fills((I)r.shape()[0], v) & fills((I)r.shape()[1], w), "shape of a two-dimensional slice");
    sym::check((v.dist == 0) | (w.dist == 0) | ((char*)r.data() - (char*)store == 4 * (300 * v.off + w.off)), "origin of a two-dimensional slice");
    sym::check(((I)r.strides()[0] == -300) & ((I)r.strides()[1] == 2), "strides of a two-dimensional slice");
    sym::assume((i >= -n0) & (i < n0));
    I ii = i + ((i >> 63) & n0);
    auto row = t((index_t)i, trange(a, b, 2));
    sym::check(fills((I)row.shape()[0], w), "size of a row slice");
    sym::check((w.dist == 0) | ((char*)row.data() - (char*)store == 4 * (300 * ii + w.off)), "origin of a row slice");
    auto row2 = t((index_t)i);
    sym::check(((I)row2.shape()[0] == n1) & ((char*)row2.data() - (char*)store == 1200 * ii) & (row2.strides()[0] == 1), "row");
    auto col = t(tall(), (index_t)0);
    sym::check(((I)col.shape()[0] == n0) & ((char*)col.data() == (char*)store) & (col.strides()[0] == 300), "column");
}
// ---- shape arithmetic ----
template <index_t D> static __attribute__((noinline)) void flat()
{
    shape<D> sh, ix;
    for (index_t i = 0; i < D; i++)
    {
        sh[i] = D == 2 && i == 0 ? 1000 : sym::range("n", 1, D == 2 ? 31 : 15);
        ix[i] = sym::range("i", 0, 1000);
        sym::assume(ix[i] < sh[i]);
    }
    index_t ref = 0;
    for (index_t i = 0; i < D; i++) ref = ref * sh[i] + ix[i];
    sym::check(sh.to_flat(ix) == ref, "to_flat is row-major");
    shape<D> st = internal_generic::strides_for_shape(sh);
    sym::check(st.dot(ix) == ref, "strides_for_shape is row-major");
}
ENTRY(shape_flat) { flat<1>(); flat<2>(); flat<3>(); }
template <index_t D> static __attribute__((noinline)) void unflat(shape<D> sh)
{
    index_t f = sym::range("f", 0, sh.product() - 1), r = f, ok = 1;
    shape<D> ix = sh.from_flat(f);
    index_t back = 0;
    for (index_t i = 0; i < D; i++) { ok &= ix[i] < sh[i]; back = back * sh[i] + ix[i]; }
    sym::check(ok & (back == r), "from_flat inverts to_flat");
}
ENTRY(shape_from_flat) { unflat<1>({ 9 }); unflat<2>({ 5, 7 }); unflat<2>({ 300, 1 }); unflat<3>({ 4, 3, 6 }); unflat<4>({ 2, 3, 1, 5 }); unflat<4>({ 10, 20, 30, 40 }); }
ENTRY(shape_misc)
{
    shape<3> a, b;
    for (int i = 0; i < 3; i++) { a[i] = sym::range("a", 0, 100000); b[i] = sym::range("b", 0, 100000); }
    sym::check((a.product() == a[0] * a[1] * a[2]) & (a.sum() == a[0] + a[1] + a[2]) & (a.dot(b) == a[0] * b[0] + a[1] * b[1] + a[2] * b[2]), "product, sum, dot");
    shape<3> t = a.transpose(), l = a.rotate_left(), r = a.rotate_right();
    sym::check((t[0] == a[2]) & (t[1] == a[1]) & (t[2] == a[0]), "transpose");
    sym::check((l[0] == a[1]) & (l[1] == a[2]) & (l[2] == a[0]) & (r[0] == a[2]) & (r[1] == a[0]) & (r[2] == a[1]), "rotate");
    shape<2> f = a.remove_front(), k = a.remove_back();
    sym::check((f[0] == a[1]) & (f[1] == a[2]) & (k[0] == a[0]) & (k[1] == a[1]), "remove_front, remove_back");
    sym::check((a == b) == ((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])), "equality");
    sym::check((a.revindex(0) == a[2]) & (a.revindex(2) == a[0]) & (a.revindex(3) == 1), "revindex");
    shape<5> e = a.extend<5>(7);
    sym::check((e[0] == 7) & (e[1] == 7) & (e[2] == a[0]) & (e[4] == a[2]), "extend");
    shape<2> tr = a.trim<2>();
    sym::check((tr[0] == a[1]) & (tr[1] == a[2]), "trim");
    index_t tz = a[2] ? 0 : a[1] ? 1 : a[0] ? 2 : 3;
    sym::check(a.trailing_zeros() == tz, "trailing_zeros");
}
ENTRY(common_shape)
{
    // broadcasting rules, including infinite and empty extents
    shape<2> a; shape<1> b;
    for (int i = 0; i < 2; i++) { a[i] = __sym_int("a", 64); }
    b[0] = __sym_int("b", 64);
    auto c = internal_generic::common_shape(a, b);
    auto one = [](index_t x, index_t y, index_t& r) -> bool
    {
        const index_t inf = infinite_size;
        bool ok = true;
        if (x == 0 || y == 0) r = 0;
        else if (x == inf && y == inf) r = inf;
        else if (x == inf) r = y == 1 ? inf : y;
        else if (y == inf) r = x == 1 ? inf : x;
        else if (x == 1) r = y;
        else if (y == 1 || x == y) r = x;
        else ok = false;
        return ok;
    };
    index_t r1 = 0, r0 = 0;
    bool ok = one(a[1], b[0], r1) & one(a[0], 1, r0);
    sym::check(ok ? (c[0] == r0) & (c[1] == r1) : (c[0] == 0) & (c[1] == 0), "common shape");
    auto asg = [](index_t d, index_t s) { return (s == 1) | (s == infinite_size) | (s == d) | (d == infinite_size); };
    sym::check(internal_generic::can_assign_from(a, b) == (asg(a[1], b[0]) & asg(a[0], 1)), "can_assign_from");
    sym::check(internal_generic::can_assign_from(b, a) == (asg(b[0], a[1]) & asg(1, a[0])), "can_assign_from, more dimensions");
    shape<3> d{ a[0], b[0], a[1] };
    bool sl = internal_generic::same_layout(d, a);
    bool b1 = b[0] == 1, p = a[0] == 1, q = a[1] == 1;
    // the extents other than one must be the same sequence
    sym::check(sl == (b1 | ((p & (b[0] == a[1]) & q))), "same_layout");
}
// ---- views: every element of a view is the addressed element of the parent ----
template <size_t N> struct data { float s[N]; float* p; data() { p = s; for (auto& e : s) e = sym::any<float>("x"); } };
static bool eq(float a, float b) { return sym::same(a, b); }
template <typename Fn> static void view2(tensor<float, 2> v, index_t h, index_t w, Fn&& ref, const char* m)
{
    bool ok = (v.shape()[0] == h) & (v.shape()[1] == w) & (v.size() == h * w);
    if (!ok) { sym::check(false, m); return; }
    for (index_t i = 0; i < h; i++) for (index_t j = 0; j < w; j++) ok &= eq(v(i, j), ref(i, j));
    // iteration, copies, maps and expressions see the same elements in the same order
    index_t k = 0;
    for (float e : v) { ok &= eq(e, ref(k / w, k % w)); k++; }
    ok &= k == h * w;
    tensor<float, 2> c = v.copy(), x(shape<2>{ h, w });
    x = v * 1.f;
    tensor<float, 1> f = v.flatten_may_copy();
    tensor<float, 2> tt = v.transpose();
    auto mp = v.map([](float z) { return -z; });
    auto bn = v.binary(c, [](float y, float) { return y; });
    float arr[64]; k = 0;
    v.iterate([&](float e, shape<2> ix) { ok &= eq(e, ref(ix[0], ix[1])) & (ix[0] == k / w) & (ix[1] == k % w); k++; });
    ok &= (f.size() == h * w) & c.is_contiguous();
    for (index_t i = 0; i < h; i++)
        for (index_t j = 0; j < w; j++)
            ok &= eq(c(i, j), ref(i, j)) & eq(x(i, j), ref(i, j) * 1.f) & eq(f(i * w + j), ref(i, j)) & eq(tt(j, i), ref(i, j)) & eq(-mp(i, j), ref(i, j)) & eq(bn(i, j), ref(i, j));
    sym::check(ok, m);
    (void)arr;
}
ENTRY(views)
{
    data<48> d;
    tensor<float, 2> t(d.p, shape<2>{ 6, 8 }, nullptr);
    view2(t, 6, 8, [&](index_t i, index_t j) { return d.s[i * 8 + j]; }, "whole");
    view2(t.transpose(), 8, 6, [&](index_t i, index_t j) { return d.s[j * 8 + i]; }, "transposed");
    view2(t(trange(1, 5), trange(2, 7)), 4, 5, [&](index_t i, index_t j) { return d.s[(i + 1) * 8 + j + 2]; }, "block");
    view2(t(shape<2>{ 1, 2 }, shape<2>{ 5, 7 }), 4, 5, [&](index_t i, index_t j) { return d.s[(i + 1) * 8 + j + 2]; }, "block by shapes");
    view2(t(tstep(2), tstep(3)), 3, 3, [&](index_t i, index_t j) { return d.s[i * 16 + j * 3]; }, "strided");
    view2(t(tstep(-1), tstep(-2)), 6, 4, [&](index_t i, index_t j) { return d.s[(5 - i) * 8 + 7 - 2 * j]; }, "reversed");
    view2(t(tstep(-1), tstep(-2)).transpose()(tstep(2), tstart(-4)), 2, 4, [&](index_t i, index_t j) { return d.s[(5 - (j + 2)) * 8 + 7 - 4 * i]; }, "view of a view");
    view2(t(trange(2, 3), tall()), 1, 8, [&](index_t, index_t j) { return d.s[16 + j]; }, "one row");
    view2(t(tall(), trange(3, 4)), 6, 1, [&](index_t i, index_t) { return d.s[i * 8 + 3]; }, "one column");
    view2(t.reshape(shape<2>{ 12, 4 }), 12, 4, [&](index_t i, index_t j) { return d.s[i * 4 + j]; }, "reshape");
    view2(t(tall(), tstep(2)).reshape_may_copy(shape<2>{ 3, 8 }), 3, 8, [&](index_t i, index_t j) { return d.s[(i * 8 + j) * 2]; }, "reshape of a strided view");
    tensor<float, 3> t3 = t.reshape(shape<3>{ 2, 3, 8 });
    view2(t3(1), 3, 8, [&](index_t i, index_t j) { return d.s[24 + i * 8 + j]; }, "plane 0");
    view2(t3(tall(), 2), 2, 8, [&](index_t i, index_t j) { return d.s[i * 24 + 16 + j]; }, "plane 1");
    view2(t3(tall(), tall(), 5), 2, 3, [&](index_t i, index_t j) { return d.s[i * 24 + j * 8 + 5]; }, "plane 2");
    view2(t3.transpose()(3), 3, 2, [&](index_t i, index_t j) { return d.s[j * 24 + i * 8 + 3]; }, "plane of a transposed tensor");
    tensor<float, 1> row = t(1), col = t(tall(), 4);
    bool ok = (row.shape()[0] == 8) & (col.shape()[0] == 6);
    for (index_t i = 0; i < 8; i++) ok &= eq(row(i), d.s[8 + i]);
    for (index_t i = 0; i < 6; i++) ok &= eq(col(i), d.s[8 * i + 4]);
    index_t k = 0;
    for (auto it = t.nested_begin(); it != t.nested_end(); ++it, ++k) ok &= eq((*it)(3), d.s[k * 8 + 3]);
    sym::check(ok & (k == 6), "rows and columns");
}
// writes through views change exactly the addressed elements
ENTRY(view_writes)
{
    for (int mode = 0; mode < 8; mode++)
    {
        data<42> d;
        float old[42];
        memcpy(old, d.s, sizeof old);
        tensor<float, 2> t(d.p, shape<2>{ 6, 7 }, nullptr);
        float src[12];
        for (auto& e : src) e = sym::any<float>("s");
        tensor<float, 2> s(src, shape<2>{ 3, 4 }, nullptr);
        auto v = mode & 4 ? t(trange(4, 1, -1), trange(5, 1, -1)) : mode & 2 ? t(tstep(2), tstep(2)) : t(trange(2, 5), trange(1, 5));
        if (mode & 1) v = s; else t(0, 0) = old[0];
        auto w = mode & 4 ? t(trange(4, 1, -1), trange(5, 1, -1)) : mode & 2 ? t(tstep(2), tstep(2)) : t(trange(2, 5), trange(1, 5));
        if (mode & 1) w.assign(s); else { (const tensor<float, 2>&)w = s + 0.5f; }
        bool ok = true;
        for (int i = 0; i < 6; i++)
            for (int j = 0; j < 7; j++)
            {
                int r = mode & 4 ? 4 - i : mode & 2 ? (i % 2 ? -1 : i / 2) : i - 2, c = mode & 4 ? 5 - j : mode & 2 ? (j % 2 ? -1 : j / 2) : j - 1;
                bool hit = r >= 0 && r < 3 && c >= 0 && c < 4;
                float e = hit ? (mode & 1 ? src[r * 4 + c] : src[r * 4 + c] + 0.5f) : old[i * 7 + j];
                ok &= eq(d.s[i * 7 + j], e);
            }
        sym::check(ok, "write through a view");
    }
}
ENTRY(fill_and_inplace)
{
    data<20> d;
    float old[20], val = sym::any<float>("v");
    memcpy(old, d.s, sizeof old);
    tensor<float, 2> t(d.p, shape<2>{ 4, 5 }, nullptr);
    (const tensor<float, 2>&)t(trange(1, 3), tstep(2)) = val;
    t(tall(), trange(3, 4)).unary_inplace([](float x) { return -x; });
    float total = t.reduce([](float x, float acc) { return eq(x, x) ? acc + 1 : acc - 100; }, 0.f);
    bool ok = total == 20;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) ok &= eq(d.s[i * 5 + j], (i == 1 || i == 2) && j % 2 == 0 ? val : j == 3 ? -old[i * 5 + j] : old[i * 5 + j]);
    sym::check(ok, "fill and in-place map through views");
}
// ownership: the last copy releases the memory once, and every copy stays readable until then
ENTRY(ownership)
{
    uint64_t live = __sym_heap_live();
    float x = sym::any<float>("x");
    {
        tensor<float, 1> outer;
        {
            tensor<float, 2> t(shape<2>{ 3, 4 }, x);
            t(2, 3) = 1;
            tensor<float, 2> u = t, w;
            w = u;
            w = (const tensor<float, 2>&)w;
            tensor<float, 2>& alias = w;
            w = std::move(alias);
            sym::check(eq(w(0, 0), x) & (w(2, 3) == 1), "tensor assigned to itself");
            u = tensor<float, 2>(shape<2>{ 1, 1 }, 2.f);
            sym::check((u.size() == 1) & (u(0, 0) == 2), "assigned tensor");
            outer = w(1);
            t     = t.copy();
            t(1, 1) = 5;
        }
        sym::check((outer.size() == 4) & eq(outer(0), x) & eq(outer(1), x) & eq(outer(3), x), "view outlives the tensor it was taken from");
        tensor<float, 1> v = tensor_from_container(univector<float>{ x, 2, 3 });
        tensor<float, 1> v2 = v(tstep(-1));
        v = tensor<float, 1>{};
        sym::check((v2.size() == 3) & eq(v2(2), x) & (v2(0) == 3), "tensor over a container");
        int fin = 0;
        {
            float st[2] = { x, x };
            tensor<float, 1> e(st, shape<1>{ 2 }, make_memory_finalizer([&fin]() { fin++; }));
            tensor<float, 1> g = e, h = g(tstart(1));
            e = tensor<float, 1>{};
            g = tensor<float, 1>{};
            sym::check((fin == 0) & eq(h(0), x), "finalizer waits for the last view");
        }
        sym::check(fin == 1, "finalizer runs once");
    }
    sym::check(__sym_heap_live() == live, "all memory is released");
}
ENTRY(initializers)
{
    float x = sym::any<float>("x");
    tensor<float, 1> a{ x, 2.f, 3.f };
    tensor<float, 2> b{ { x, 2.f }, { 3.f, 4.f }, { 5.f, x } };
    tensor<float, 3> c{ { { 1.f, x }, { 3.f, 4.f } } };
    tensor<float, 2> e(shape<2>{ 2, 2 }, { 1.f, 2.f, x, 4.f });
    tensor<float, 2> f(shape<2>{ 2, 2 }, shape<2>{ 1, 2 }, { 1.f, 2.f, x, 4.f });
    sym::check((a.size() == 3) & eq(a(0), x) & (a(2) == 3), "list of one dimension");
    sym::check((b.shape()[0] == 3) & (b.shape()[1] == 2) & eq(b(2, 1), x) & (b(1, 0) == 3) & eq(b(0, 0), x), "list of two dimensions");
    sym::check((c.shape()[0] == 1) & (c.shape()[1] == 2) & (c.shape()[2] == 2) & eq(c(0, 0, 1), x) & (c(0, 1, 0) == 3), "list of three dimensions");
    sym::check(eq(e(1, 0), x) & (e(0, 1) == 2) & eq(f(1, 0), x) & (f(0, 1) == 2), "flat list");
    sym::check(a.operator==(tensor<float, 1>{ 1.f, 2.f, 3.f }) == (x == 1), "equality");
    sym::check(a.operator!=(tensor<float, 1>{ x, 2.f }), "different shapes are not equal");
    auto i = tensor<float, 1>{ 1.f, 2.5f }.astype<int>();
    sym::check((i(0) == 1) & (i(1) == 2), "astype");
}
// broadcasting in expressions
ENTRY(broadcasting)
{
    data<6> a; data<3> b; data<2> c;
    tensor<float, 2> A(a.p, shape<2>{ 2, 3 }, nullptr), C(c.p, shape<2>{ 2, 1 }, nullptr);
    tensor<float, 1> B(b.p, shape<1>{ 3 }, nullptr);
    tensor<float, 2> r1 = trender(A + B), r2 = trender(C * A), r3 = trender(B - C), r4 = trender(A + 1.5f);
    tensor<float, 3> r5 = trender(A.reshape(shape<3>{ 2, 1, 3 }) + B.reshape(shape<2>{ 3, 1 }));
    bool ok = (r3.shape()[0] == 2) & (r3.shape()[1] == 3) & (r5.shape()[0] == 2) & (r5.shape()[1] == 3) & (r5.shape()[2] == 3);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 3; j++)
        {
            ok &= eq(r1(i, j), a.s[i * 3 + j] + b.s[j]) & eq(r2(i, j), c.s[i] * a.s[i * 3 + j]) & eq(r3(i, j), b.s[j] - c.s[i]) & eq(r4(i, j), a.s[i * 3 + j] + 1.5f);
            for (int k = 0; k < 3; k++) ok &= eq(r5(i, j, k), a.s[i * 3 + k] + b.s[j]);
        }
    sym::check(ok, "broadcast arithmetic");
}
template <index_t D, index_t Ax, size_t W> static __attribute__((noinline)) void axis(shape<D> sh)
{
    // evaluation along any axis with any width gives the same elements
    index_t n = sh.product();
    float* s = new float[n];
    for (index_t i = 0; i < n; i++) s[i] = sym::any<float>("x");
    tensor<float, D> t(s, sh, nullptr);
    tensor<float, D> r(sh, 0.f);
    process<W, Ax>(r, t + t.transpose().transpose());
    bool ok = true;
    for (index_t i = 0; i < n; i++) ok &= eq(r[i], s[i] + s[i]);
    sym::check(ok, "evaluation along an axis");
    delete[] s;
}
ENTRY(axes)
{
    axis<2, 0, 4>({ 5, 3 }); axis<2, 1, 4>({ 5, 3 }); axis<2, 0, 1>({ 3, 7 }); axis<2, 1, 8>({ 3, 11 });
    axis<3, 0, 4>({ 6, 2, 3 }); axis<3, 1, 4>({ 2, 7, 3 }); axis<3, 2, 2>({ 2, 3, 5 }); axis<3, 0, 0>({ 9, 1, 2 }); axis<3, 2, 0>({ 1, 2, 13 }); axis<4, 1, 2>({ 2, 3, 2, 2 }); axis<1, 0, 4>({ 11 });
}

// ---- transposition of packed matrices ----
template <typename T> static T val()
{
    if constexpr (is_complex<T>) { subtype<T> a = sym::any<subtype<T>>("re"), b = sym::any<subtype<T>>("im"); return T(a, b); }
    else if constexpr (is_vec<T>) { T v; for (size_t i = 0; i < v.size(); i++) v[i] = sym::any<typename T::value_type>("v"); return v; }
    else return sym::any<T>("x");
}
template <typename T> static bool eqv(const T& a, const T& b)
{
    if constexpr (is_complex<T>) return sym::same(a.real(), b.real()) & sym::same(a.imag(), b.imag());
    else if constexpr (is_vec<T>) { bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= sym::same<typename T::value_type>(a[i], b[i]); return ok; }
    else return sym::same(a, b);
}
template <typename T, index_t D> static __attribute__((noinline)) void mt(shape<D> sh)
{
    index_t n = sh.product();
    T* in = aligned_allocate<T>(n, 64);
    T* out = aligned_allocate<T>(n, 64);
    T* x = aligned_allocate<T>(n, 64);
    for (index_t i = 0; i < n; i++) in[i] = x[i] = val<T>();
    matrix_transpose(out, in, sh);
    bool ok = true, same = true, okin = true;
    auto where = [&](index_t i)
    {
        index_t o = 0, m = 1;
        shape<D> ix;
        index_t r = i;
        for (index_t k = D; k-- > 0;) { ix[k] = r % sh[k]; r /= sh[k]; }
        for (index_t k = 0; k < D; k++) { o += ix[k] * m; m *= sh[k]; }
        return o;
    };
    for (index_t i = 0; i < n; i++) { ok &= eqv(out[where(i)], x[i]); same &= eqv(in[i], x[i]); }
    sym::check(ok, "transpose into another buffer");
    sym::check(same, "the source is not changed");
    matrix_transpose(in, in, sh);
    for (index_t i = 0; i < n; i++) okin &= eqv(in[where(i)], x[i]);
    sym::check(okin, "transpose in place");
    aligned_deallocate(in); aligned_deallocate(out); aligned_deallocate(x);
}
template <typename T> static void grid(index_t a, index_t b, index_t m) { for (index_t i = a; i <= b; i++) for (index_t j = 1; j <= m; j++) mt<T, 2>({ i, j }); }
ENTRY(matrix_f32_small) { grid<float>(1, 7, 13); }
ENTRY(matrix_f32) { grid<float>(8, 13, 13); }
ENTRY(matrix_f32_long) { for (index_t k : { 2, 3, 4, 5, 7, 8 }) for (index_t l : { 16, 17, 23, 31, 32, 40 }) { mt<float, 2>({ k, l }); mt<float, 2>({ l, k }); } mt<float, 2>({ 20, 30 }); mt<float, 2>({ 33, 21 }); mt<float, 2>({ 24, 24 }); mt<float, 2>({ 19, 19 }); }
ENTRY(matrix_f64) { grid<double>(1, 10, 10); mt<double, 2>({ 3, 20 }); mt<double, 2>({ 20, 3 }); }
ENTRY(matrix_c32) { grid<complex<float>>(1, 9, 9); mt<complex<float>, 2>({ 5, 22 }); mt<complex<float>, 2>({ 22, 5 }); }
ENTRY(matrix_c64) { grid<complex<double>>(1, 7, 7); mt<complex<double>, 2>({ 4, 18 }); mt<complex<double>, 2>({ 18, 4 }); }
ENTRY(matrix_u8) { grid<u8>(1, 9, 9); mt<u8, 2>({ 3, 41 }); mt<u8, 2>({ 41, 3 }); mt<u8, 2>({ 4, 16 }); }
ENTRY(matrix_vec3) { grid<vec<float, 3>>(1, 6, 6); mt<vec<float, 3>, 2>({ 3, 14 }); mt<vec<float, 3>, 2>({ 14, 3 }); }
ENTRY(matrix_nd) { mt<float, 3>({ 2, 3, 4 }); mt<float, 3>({ 5, 1, 3 }); mt<float, 3>({ 3, 7, 2 }); mt<float, 4>({ 2, 3, 2, 5 }); mt<complex<float>, 3>({ 3, 2, 5 }); mt<float, 3>({ 4, 4, 4 }); mt<float, 1>({ 9 }); mt<double, 4>({ 1, 3, 1, 4 }); mt<float, 5>({ 2, 2, 3, 2, 2 }); }
ENTRY(matrix_heap_cycles)
{
    // cycle bookkeeping that does not fit the on-stack bitmap (concrete data)
    const index_t n = 65540;
    uint64_t live = __sym_heap_live();
    u16* p = new u16[2 * n];
    for (index_t i = 0; i < 2 * n; i++) p[i] = u16(i * 7);
    matrix_transpose(p, p, shape<2>{ 2, n });
    bool ok = true;
    for (index_t i = 0; i < 2 * n; i++) ok &= p[i % n * 2 + i / n] == u16(i * 7);
    delete[] p;
    sym::check(ok & (__sym_heap_live() == live), "transpose of a very wide matrix");
}
