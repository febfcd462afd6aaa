// FIR filters: fir_filter, fir(), short_fir() equal the direct sum for every split of the stream.
#include "stream.h"
static double tap(size_t i) { return ((i * 7 + 3) % 13) / 8.0 - 0.6875; }
template <typename T>
static univector<T> taps(size_t n) { univector<T> t(n); for (size_t i = 0; i < n; i++) t[i] = (T)tap(i); return t; }
template <typename T, typename U>
static __attribute__((noinline)) void one(size_t n, size_t len, const size_t* cuts, size_t nc, bool inplace, int mode)
{
    double* h = new double[n];
    for (size_t i = 0; i < n; i++) h[i] = tap(i);
    stream_ref ref{ h, n, 64 * (unit<T>() + unit<U>()) * (n + 1) };
    if (mode == 0) // filter object
    {
        fir_filter<T, U> f{ fir_params<T>(taps<T>(n)) };
        drive<U>(len, cuts, nc, inplace, ref, [&](U* o, const U* i, size_t m) { f.apply(o, i, m); });
    }
    else if (mode == 1) // used, then reset
    {
        fir_filter<T, U> f{ fir_params<T>(taps<T>(n)) };
        U junk[7];
        for (int i = 0; i < 7; i++) junk[i] = U(i + 1);
        f.apply(junk, 7);
        f.reset();
        drive<U>(len, cuts, nc, inplace, ref, [&](U* o, const U* i, size_t m) { f.apply(o, i, m); });
    }
    else if (mode == 2) // coefficients replaced
    {
        fir_filter<T, U> f{ fir_params<T>(taps<T>(n + 3)) };
        U junk[5];
        for (int i = 0; i < 5; i++) junk[i] = U(i + 1);
        f.apply(junk, 5);
        f.set_taps(fir_params<T>(taps<T>(n)));
        drive<U>(len, cuts, nc, inplace, ref, [&](U* o, const U* i, size_t m) { f.apply(o, i, m); });
    }
    else if (mode == 3) // expression with external state; expression input of the filter object
    {
        fir_state<T, U> st{ fir_params<T>(taps<T>(n)) };
        drive<U>(len, cuts, nc, inplace, ref, [&](U* o, const U* i, size_t m) { make_univector(o, m) = fir(make_univector(i, m), std::ref(st)); });
    }
    else // expression source
    {
        fir_filter<T, U> f{ fir_params<T>(taps<T>(n)) };
        drive<U>(len, cuts, nc, inplace, ref, [&](U* o, const U* i, size_t m) { univector<U> d(m); f.apply(d, make_univector(i, m) * U(1)); for (size_t k = 0; k < m; k++) o[k] = d[k]; });
    }
}
template <typename T, typename U>
static void all(size_t lo, size_t hi)
{
    for (size_t n = lo; n <= hi; n++)
        for (int s = 0; s < 7; s++)
            one<T, U>(n, 19, SPLITS[s], 16, s & 1, (s + n) % 5);
}
#define F(T, U, nm) ENTRY(fir_##nm##_a) { all<T, U>(1, 6); } ENTRY(fir_##nm##_b) { all<T, U>(7, 12); all<T, U>(17, 18); }
F(float, float, f32) F(double, double, f64) F(float, double, f32f64) F(double, float, f64f32) F(float, complex<float>, f32c32) F(double, complex<double>, f64c64)
ENTRY(fir_anysplit) { size_t c[4]; anycuts(10, c); one<float, float>(5, 10, c, 4, true, 0); }
ENTRY(fir_anysplit_state) { size_t c[4]; anycuts(9, c); one<double, complex<double>>(3, 9, c, 4, false, 3); }

// symbolic taps as well: y[k] = sum h[j] x[k-j] for every h
template <typename T>
static void symtaps(size_t n, size_t len, size_t cut)
{
    univector<T> t(n);
    double *h = new double[n], *x = new double[len];
    for (size_t i = 0; i < n; i++) { t[i] = sym::ranged<T>("h", -1, 1); h[i] = t[i]; }
    fir_filter<T> f{ fir_params<T>(t) };
    univector<T> in(len), out(len);
    for (size_t i = 0; i < len; i++) { in[i] = sym::ranged<T>("x", -1, 1); x[i] = in[i]; }
    f.apply(out.data(), in.data(), cut);
    f.apply(out.data() + cut, in.data() + cut, len - cut);
    for (size_t k = 0; k < len; k++)
    {
        double acc = 0;
        for (size_t j = 0; j < n && j <= k; j++) acc = __sym_xadd(acc, __sym_xmul(h[j], x[k - j]));
        __sym_close(out[k], acc, 64 * unit<T>() * (n + 1), "FIR output with arbitrary taps");
    }
    for (size_t i = 0; i < n; i++) sym::check(sym::bits(t[i]) == sym::bits((T)h[i]), "the caller's taps are not modified");
}
ENTRY(fir_symtaps_f32) { for (size_t n = 1; n <= 5; n++) symtaps<float>(n, 8, n); }
ENTRY(fir_symtaps_f64) { for (size_t n = 1; n <= 5; n++) symtaps<double>(n, 8, 6 - n); }

template <typename T, size_t N>
static __attribute__((noinline)) void shortfir(size_t len, const size_t* cuts, size_t nc, bool inplace)
{
    double h[N];
    univector<T, N> t;
    for (size_t i = 0; i < N; i++) { h[i] = tap(i); t[i] = (T)h[i]; }
    stream_ref ref{ h, N, 64 * unit<T>() * (N + 1) };
    short_fir_state<next_poweroftwo(N - 1) + 1, T> st{ t };
    drive<T>(len, cuts, nc, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = short_fir(make_univector(i, m), std::ref(st)); });
    // one-shot form holding its own state
    drive<T>(len, SPLITS[0], 1, inplace, ref, [&](T* o, const T* i, size_t m) { make_univector(o, m) = short_fir(make_univector(i, m), t); });
}
template <typename T, size_t N>
static void shortall() { for (int s = 0; s < 7; s++) shortfir<T, N>(19, SPLITS[s], 16, s & 1); }
ENTRY(short_fir_f32) { shortall<float, 2>(); shortall<float, 3>(); shortall<float, 4>(); shortall<float, 5>(); shortall<float, 6>(); shortall<float, 9>(); shortall<float, 16>(); }
ENTRY(short_fir_f64) { shortall<double, 2>(); shortall<double, 3>(); shortall<double, 5>(); shortall<double, 8>(); shortall<double, 12>(); }
ENTRY(short_fir_anysplit) { size_t c[4]; anycuts(9, c); shortfir<float, 4>(9, c, 4, true); }
ENTRY(fir_taps_not_stolen)
{
    // building a state or filter from named coefficients leaves them alone
    univector<float> t{ 1.f, 2.f, 3.f };
    fir_state<float> st(t);
    sym::check(t.size() == 3, "coefficients passed as an lvalue are copied");
    sym::check(st.params.taps.size() == 3, "state has all taps");
    fir_params<float> p(t);
    sym::check(t.size() == 3 && p.taps.size() == 3, "coefficients passed as an lvalue are copied");
    for (size_t i = 0; i < t.size(); i++) sym::check(t[i] == float(i + 1), "coefficients unchanged");
}
#if THOROUGH
ENTRY(fir_big) { all<float, float>(19, 34); }
ENTRY(fir_big_c) { all<double, complex<double>>(19, 26); }
ENTRY(short_fir_big) { shortall<float, 17>(); shortall<float, 24>(); shortall<float, 32>(); shortall<float, 33>(); shortall<double, 33>(); }
ENTRY(fir_anysplit_big) { size_t c[4]; anycuts(14, c); one<float, float>(6, 14, c, 4, true, 0); }
#endif
