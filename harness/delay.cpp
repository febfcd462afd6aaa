// Delay, fractional delay and moving sum over any split of the stream; ring buffer primitives of univector.
#include "stream.h"
template <typename T, size_t D>
static __attribute__((noinline)) void del(const size_t* cuts, size_t nc, size_t len, bool inplace)
{
    double h[D + 1];
    for (size_t i = 0; i <= D; i++) h[i] = i == D;
    stream_ref ref{ h, D + 1, 1e-12 };
    if constexpr (D > 1)
    {
        delay_state<T, D> st;
        drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = delay(make_univector(i, m), std::ref(st)); });
        delay_state<T, D, tag_dynamic_vector> st2;
        drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = delay(make_univector(i, m), std::ref(st2)); });
    }
    drive<T>(len, SPLITS[0], 1, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = delay<D>(make_univector(i, m)); });
}
template <typename T, size_t D> static void delall() { for (int s = 0; s < 7; s++) del<T, D>(SPLITS[s], 16, 19, s & 1); }
ENTRY(delay_f32) { delall<float, 1>(); delall<float, 2>(); delall<float, 3>(); delall<float, 4>(); delall<float, 5>(); delall<float, 8>(); delall<float, 15>(); }
ENTRY(delay_f64) { delall<double, 1>(); delall<double, 2>(); delall<double, 3>(); delall<double, 7>(); }
ENTRY(delay_c32) { delall<complex<float>, 1>(); delall<complex<float>, 3>(); delall<complex<float>, 6>(); }
ENTRY(delay_anysplit) { size_t c[4]; anycuts(10, c); del<float, 3>(c, 4, 10, true); }

template <typename T>
static void frac(double d, bool inplace)
{
    double h[2] = { 1 - d, d };
    stream_ref ref{ h, 2, 64 * unit<T>() };
    drive<T>(11, SPLITS[0], 1, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = fracdelay(make_univector(i, m), (T)d); });
}
ENTRY(fracdelay) { for (double d : { 0.0, 0.25, 0.5, 0.75, 1.0 }) { frac<float>(d, false); frac<double>(d, true); } }
ENTRY(fracdelay_any)
{
    float d = sym::ranged<float>("d", 0, 1);
    float x[6], y[6];
    for (auto& e : x) e = sym::ranged<float>("x", -1, 1);
    make_univector(y, 6) = fracdelay(make_univector(x, 6), d);
    for (size_t i = 0; i < 6; i++)
    {
        double r = __sym_xadd(x[i], -__sym_xmul(d, x[i]));
        if (i) r = __sym_xadd(r, __sym_xmul(d, x[i - 1]));
        __sym_close(y[i], r, 1e-6, "fractional delay is linear interpolation");
    }
}
template <typename T>
static __attribute__((noinline)) void msum(size_t n, const size_t* cuts, size_t nc, size_t len, bool inplace)
{
    double* h = new double[n];
    for (size_t i = 0; i < n; i++) h[i] = 1;
    stream_ref ref{ h, n, 64 * unit<T>() * (n + len) };
    moving_sum_state<T> st(n);
    drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = moving_sum(make_univector(i, m), std::ref(st)); });
    drive<T>(len, SPLITS[0], 1, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = moving_sum(make_univector(i, m), n); });
}
template <typename T> static void msall(size_t a, size_t b) { for (size_t n = a; n <= b; n++) for (int s = 0; s < 7; s++) msum<T>(n, SPLITS[s], 16, 19, s & 1); }
ENTRY(moving_sum_f32) { msall<float>(1, 9); }
ENTRY(moving_sum_f64) { msall<double>(1, 6); msall<double>(17, 18); }
ENTRY(moving_sum_anysplit) { size_t c[4]; anycuts(8, c); msum<float>(3, c, 4, 8, true); }

// ring buffer primitives: a block write (read) is the same as writing (reading) its elements one by one
ENTRY(ringbuf_write)
{
    size_t size = sym::pick("size", 1, 5), cur = sym::pick("cursor", 0, 4), n = sym::pick("n", 0, 12);
    sym::assume(cur < size);
    univector<int> a(size), b(size);
    for (size_t i = 0; i < size; i++) a[i] = b[i] = sym::any<int>("old");
    int* src = new int[n ? n : 1];
    for (size_t i = 0; i < n; i++) src[i] = sym::any<int>("src");
    size_t ca = cur, cb = cur;
    a.ringbuf_write(ca, src, n);
    for (size_t i = 0; i < n; i++) b.ringbuf_write(cb, src[i]);
    sym::check(ca == cb, "cursor after block write");
    for (size_t i = 0; i < size; i++) sym::check(a[i] == b[i], "ring contents after block write");
}
ENTRY(ringbuf_read)
{
    size_t size = sym::pick("size", 1, 5), cur = sym::pick("cursor", 0, 4), n = sym::pick("n", 0, 12);
    sym::assume(cur < size);
    univector<int> a(size);
    for (size_t i = 0; i < size; i++) a[i] = sym::any<int>("data");
    int* d = new int[n ? n : 1]();
    int* e = new int[n ? n : 1]();
    size_t ca = cur, cb = cur;
    a.ringbuf_read(ca, d, n);
    for (size_t i = 0; i < n; i++) a.ringbuf_read(cb, e[i]);
    sym::check(ca == cb, "cursor after block read");
    for (size_t i = 0; i < n; i++) sym::check(d[i] == e[i], "elements from block read");
}
ENTRY(ringbuf_step)
{
    size_t size = sym::pick("size", 1, 5), cur = sym::pick("cursor", 0, 4), n = sym::pick("n", 0, 12);
    sym::assume(cur < size);
    univector<int> a(size);
    size_t ca = cur;
    a.ringbuf_step(ca, n);
    sym::check(ca == (cur + n) % size, "cursor after step");
}
