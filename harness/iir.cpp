// IIR filters: a cascade of biquad sections equals its difference equations for every split of the stream.
#include "stream.h"
template <typename T>
static biquad_section<T> sec(int i)
{
    static const double q[6][5] = { { -0.5, 0.25, 0.5, 0.25, -0.125 }, { 0.375, -0.25, 1, -0.5, 0.25 }, { -0.75, 0.5, 0.25, 0.5, 0.25 },
                                    { 0.25, 0.125, 0.75, 0.125, -0.25 }, { -0.125, -0.25, 0.5, -0.25, 0.5 }, { 0.5, 0.25, 1, 0.25, 0.125 } };
    return biquad_section<T>(1, (T)q[i][0], (T)q[i][1], (T)q[i][2], (T)q[i][3], (T)q[i][4]);
}
static void response(size_t n, double* h, size_t len)
{
    for (size_t i = 0; i < len; i++) h[i] = i == 0;
    for (size_t f = 0; f < n; f++)
    {
        auto s = sec<double>(f % 6);
        double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
        for (size_t i = 0; i < len; i++)
        {
            double y = s.b0 * h[i] + s.b1 * x1 + s.b2 * x2 - s.a1 * y1 - s.a2 * y2;
            x2 = x1; x1 = h[i]; y2 = y1; y1 = y; h[i] = y;
        }
    }
}
constexpr size_t LEN = 18;
template <typename T, size_t N>
static __attribute__((noinline)) void expr(const size_t* cuts, size_t nc, size_t len, bool inplace)
{
    double h[LEN];
    response(N, h, len);
    biquad_section<T> bq[N];
    for (size_t i = 0; i < N; i++) bq[i] = sec<T>(i % 6);
    stream_ref ref{ h, len, 4000 * unit<T>() * len };
    iir_state<T, N> st{ iir_params<T, N>(bq, N) };
    drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = iir(make_univector(i, m), std::ref(st)); });
}
template <typename T>
static __attribute__((noinline)) void filt(size_t n, const size_t* cuts, size_t nc, size_t len, bool inplace, int mode)
{
    double h[LEN];
    response(n, h, len);
    std::vector<biquad_section<T>> bq;
    for (size_t i = 0; i < n; i++) bq.push_back(sec<T>(i % 6));
    stream_ref ref{ h, len, 4000 * unit<T>() * len };
    iir_filter<T> f{ iir_params<T>(bq) };
    if (mode == 1) // used, then reset
    {
        T junk[6] = { 1, 2, 3, 4, 5, 6 };
        f.apply(junk, 6);
        f.reset();
    }
    if (mode == 2) // input is an expression
        drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { univector<T> d(m); f.apply(d, make_univector(i, m) * T(1)); for (size_t k = 0; k < m; k++) o[k] = d[k]; });
    else
        drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { f.apply(o, i, m); });
}
// pieces no shorter than the cascade / all pieces
template <typename T, size_t N> static void exprall() { for (int s = 0; s < 7; s++) expr<T, N>(SPLITS[s], 16, LEN, s & 1); }
template <typename T> static void filtall(size_t n, int mode) { for (int s = 0; s < 7; s++) filt<T>(n, SPLITS[s], 16, LEN, s & 1, mode); }
ENTRY(iir_expr_f32) { exprall<float, 1>(); exprall<float, 2>(); exprall<float, 4>(); exprall<float, 8>(); }
ENTRY(iir_expr_f64) { exprall<double, 1>(); exprall<double, 2>(); exprall<double, 4>(); }
ENTRY(iir_filter_f32) { for (size_t n = 1; n <= 5; n++) filtall<float>(n, 0); }
ENTRY(iir_filter_f64) { for (size_t n = 1; n <= 4; n++) filtall<double>(n, 0); }
ENTRY(iir_filter_reset) { for (size_t n = 1; n <= 5; n++) filtall<double>(n, 1); }
ENTRY(iir_filter_source) { for (size_t n = 1; n <= 4; n++) filtall<float>(n, 2); }
ENTRY(iir_anysplit) { size_t c[4]; anycuts(9, c); filt<float>(3, c, 4, 9, true, 0); }
ENTRY(iir_anysplit_expr) { size_t c[4]; anycuts(8, c); expr<double, 4>(c, 4, 8, false); }
#if THOROUGH
ENTRY(iir_expr_big) { exprall<float, 16>(); exprall<double, 8>(); exprall<double, 16>(); }
ENTRY(iir_filter_big) { for (size_t n = 6; n <= 17; n++) { filtall<double>(n, 0); filtall<double>(n, 1); } }
ENTRY(iir_anysplit_big) { size_t c[4]; anycuts(14, c); filt<double>(5, c, 4, 14, true, 0); }
#endif
// arbitrary coefficients of one section: the difference equation, step by step (exact real arithmetic as reference)
template <typename T>
static void symcoef()
{
    T a1 = sym::ranged<T>("a1", -1, 1), a2 = sym::ranged<T>("a2", -1, 1), b0 = sym::ranged<T>("b0", -1, 1), b1 = sym::ranged<T>("b1", -1, 1), b2 = sym::ranged<T>("b2", -1, 1);
    constexpr size_t n = 4;
    T x[n], y[n];
    for (size_t i = 0; i < n; i++) x[i] = sym::ranged<T>("x", -1, 1);
    iir_filter<T> f{ iir_params<T>(biquad_section<T>(1, a1, a2, b0, b1, b2)) };
    for (size_t i = 0; i < n; i++) y[i] = x[i];
    f.apply(y, n);
    auto X = [](double a, double b) { return __sym_xmul(a, b); };
    auto A = [](double a, double b) { return __sym_xadd(a, b); };
    double r[n];
    for (size_t k = 0; k < n; k++)
    {
        double acc = X(b0, x[k]);
        if (k >= 1) acc = A(acc, A(X(b1, x[k - 1]), -X(a1, r[k - 1])));
        if (k >= 2) acc = A(acc, A(X(b2, x[k - 2]), -X(a2, r[k - 2])));
        r[k] = acc;
        __sym_close(y[k], acc, 400 * unit<T>() * n * 8, "biquad with arbitrary coefficients");
    }
}
ENTRY(iir_symcoef_f32) { symcoef<float>(); }
ENTRY(iir_symcoef_f64) { symcoef<double>(); }
