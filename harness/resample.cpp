// Sample rate converter: every output sample is the fixed polyphase filter sum at its position, for any chunking.
#include "stream.h"
static double i0(double x)
{
    double s = 1, t = 1;
    for (int k = 1; k < 200; k++) { t *= (x / (2.0 * k)) * (x / (2.0 * k)); s += t; if (t < 1e-20 * s) break; }
    return s;
}
// independent design of the prototype low-pass filter (Kaiser-windowed sinc, DC gain I*scale)
static double* proto(int quality, long I, long D, double scale, double cutoff, long* ntaps)
{
    const long depth = 1L << (quality + 1), taps = depth * I;
    const double att = (quality - 3) * 20.0;
    const double beta = att > 50 ? 0.1102 * (att - 8.7) : att >= 21 ? 0.5842 * std::pow(att - 21, 0.4) + 0.07886 * (att - 21) : 0;
    const double tw = (beta / 0.1102 + 8.7 - 8) / (depth - 1) / 2.285;
    const double pi = 3.14159265358979323846;
    cutoff = (cutoff - tw / (4 * pi)) / (D > I ? D : I);
    double* h = new double[taps];
    double sum = 0;
    for (long j = 0; j < taps; j++)
    {
        double a = (j - taps / 2) * cutoff * 2 * pi, r = 2.0 * j / (taps - 1) - 1;
        h[j] = (a == 0 ? 1 : std::sin(a) / a) * i0(beta * std::sqrt(r * r > 1 ? 0 : 1 - r * r)) / i0(beta);
        sum += h[j];
    }
    for (long j = 0; j < taps; j++) h[j] *= I * scale / sum;
    *ntaps = taps;
    return h;
}
template <typename T>
struct bench
{
    long I, D, taps;
    double* h;
    double tol;
    samplerate_converter<T> s;
    double *x, *v, *c;
    size_t len;
    bench(int q, long i, long d, size_t len, double scale = 1, double cutoff = 0.5)
        : s(sample_rate_conversion_quality(q), i, d, (subtype<T>)scale, (subtype<T>)cutoff), len(len)
    {
        long g = gcd((int)i, (int)d);
        I = i / g; D = d / g;
        h = proto(q, I, D, scale, cutoff, &taps);
        tol = (sizeof(subtype<T>) == 4 ? 3e-5 : 1e-9) * scale * (1 + I / 4.0);
        x = new double[2 * len]; v = new double[len]; c = new double[len];
        for (size_t k = 0; k < len; k++) { x[2 * k] = sym::ranged<subtype<T>>("x", -1, 1); x[2 * k + 1] = cx<T> ? (double)sym::ranged<subtype<T>>("xi", -1, 1) : 0; }
    }
    T in(size_t k) const { if constexpr (cx<T>) return T((subtype<T>)x[2 * k], (subtype<T>)x[2 * k + 1]); else return (T)x[2 * k]; }
    // output at absolute position p
    void compare(long p, const T& y)
    {
        for (int im = 0; im < (cx<T> ? 2 : 1); im++)
        {
            for (size_t k = 0; k < len; k++)
            {
                v[k] = x[2 * k + im];
                long m = p * D - (long)k * I; // distance of the output from the input sample on the common grid
                c[k] = m >= 0 && m < taps ? h[taps - 1 - m] : 0;
            }
            double yy;
            if constexpr (cx<T>) yy = im ? y.imag() : y.real(); else yy = y;
            __sym_close_lin(yy, v, c, len, tol, "resampled sample");
        }
    }
};
// pull: ask for outputs in the given pieces and supply exactly what is requested
template <typename T>
static __attribute__((noinline)) void pull(int q, long I, long D, size_t len, const size_t* cuts, size_t nc, bool skipping)
{
    bench<T> b(q, I, D, len);
    size_t ip = 0, op = 0;
    for (size_t r = 0; r < nc; r++)
    {
        size_t n = cuts[r];
        if (n > 200) break;
        long need = b.s.input_size_for_output(n);
        sym::check(need >= 0, "requested input size is not negative");
        if (ip + need > len) break;
        // an output never depends on more input than was requested for it
        univector<T> in(need), out(n);
        for (long k = 0; k < need; k++) in[k] = b.in(ip + k);
        if (skipping && r % 2 == 0)
            sym::check(b.s.skip(n, in) == (size_t)need, "consumed by skip");
        else
        {
            sym::check(b.s.process(out, in) == (size_t)need, "consumed by process");
            for (size_t k = 0; k < n; k++) b.compare(op + k, out[k]);
        }
        ip += need;
        op += n;
    }
}
static const size_t PC[][24] = { { 60, 1000 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }, { 3, 2, 4, 0, 1, 5, 31, 2, 7, 3, 1000 }, { 33, 1, 3, 40, 2, 1000 }, { 11, 11, 11, 11, 11, 1000 } };
template <typename T>
static void pullall(long I, long D) { for (int s = 0; s < 5; s++) { pull<T>(4, I, D, 90, PC[s], 24, false); if (s) pull<T>(4, I, D, 90, PC[s], 24, true); } }
#define PULL(T, nm) ENTRY(pull_##nm##_a) { pullall<T>(1, 1); pullall<T>(2, 1); pullall<T>(1, 2); pullall<T>(3, 1); } ENTRY(pull_##nm##_b) { pullall<T>(3, 2); pullall<T>(2, 3); pullall<T>(5, 4); pullall<T>(4, 6); pullall<T>(1, 5); }
PULL(float, f32) PULL(double, f64) PULL(complex<double>, c64)
#if THOROUGH
PULL(complex<float>, c32)
ENTRY(pull_cd) { pullall<double>(160, 147); pullall<double>(147, 160); pullall<float>(48, 11); }
ENTRY(pull_low) { for (int s = 0; s < 5; s++) { pull<double>(6, 3, 2, 170, PC[s], 24, false); pull<double>(6, 2, 3, 260, PC[s], 24, true); } }
#endif
ENTRY(pull_anysplit)
{
    size_t c[4];
    anycuts(8, c);
    pull<float>(4, 3, 2, 40, c, 4, false);
}
ENTRY(pull_anysplit_skip)
{
    size_t c[4];
    anycuts(8, c);
    pull<double>(4, 2, 3, 40, c, 4, true);
}
// push: supply input in pieces, take what output_size_for_input says, feed again what was not consumed
template <typename T>
static __attribute__((noinline)) void push(int q, long I, long D, size_t len, const size_t* cuts, size_t nc)
{
    bench<T> b(q, I, D, len);
    size_t ip = 0, op = 0, given = 0;
    for (size_t r = 0; r < nc && given < len; r++)
    {
        given = given + cuts[r] > len ? len : given + cuts[r];
        size_t n = given - ip;
        if (n == 0) continue;
        long m = b.s.output_size_for_input(n);
        sym::check(m >= 0 && m < 100000, "output size for input");
        univector<T> in(n), out(m);
        for (size_t k = 0; k < n; k++) in[k] = b.in(ip + k);
        size_t used = b.s.process(out, in);
        __sym_assert_known(used <= n, b.D > b.I, "src-push-decimation", "process never consumes more than it was given");
        if (b.I >= b.D) sym::check(used == n, "without decimation the whole input is consumed");
        if (used > n) return;
        for (long k = 0; k < m; k++) b.compare(op + k, out[k]);
        ip += used;
        op += m;
    }
    // nothing is held back for longer than the filter needs
    sym::check(op * b.D + b.D + b.I > given * b.I, "all available output was produced");
}
template <typename T> static void pushall(long I, long D) { for (int s = 0; s < 5; s++) push<T>(4, I, D, 70, PC[s], 24); }
ENTRY(push_f32) { pushall<float>(1, 1); pushall<float>(2, 1); pushall<float>(3, 2); pushall<float>(5, 4); pushall<float>(4, 1); }
ENTRY(push_f64) { pushall<double>(7, 3); pushall<double>(5, 2); }
ENTRY(push_decimate) { pushall<float>(1, 2); pushall<float>(2, 3); pushall<double>(1, 5); }
ENTRY(push_anysplit) { size_t c[4]; anycuts(7, c); push<float>(4, 3, 2, 7, c, 4); }
ENTRY(scale_cutoff)
{
    // gain and cutoff parameters
    bench<double> b(4, 3, 2, 20, 0.5, 0.4);
    univector<double> in(20), out(30);
    for (size_t k = 0; k < 20; k++) in[k] = b.in(k);
    b.s.process(out, in);
    for (size_t k = 0; k < 30; k++) b.compare(k, out[k]);
}
// end of stream: missing input counts as zeros
template <typename T>
static void shortin(long I, long D, size_t n1, size_t n2)
{
    for (size_t got = 0; got <= 12; got += got < 3 ? 1 : 3)
    {
        bench<T> b(4, I, D, got);
        univector<T> in(got), out(n1), out2(n2);
        for (size_t k = 0; k < got; k++) in[k] = b.in(k);
        b.s.process(out, in);
        for (size_t k = 0; k < n1; k++) b.compare(k, out[k]);
        b.s.process(out2, univector<T>(0));
        for (size_t k = 0; k < n2; k++) b.compare(n1 + k, out2[k]);
    }
}
ENTRY(short_input) { shortin<float>(3, 2, 30, 45); shortin<float>(3, 2, 75, 3); shortin<double>(1, 1, 46, 4); shortin<double>(2, 3, 31, 3); }
// position bookkeeping at any point of a long stream
struct at : samplerate_converter<float>
{
    at(long I, long D) : samplerate_converter<float>(sample_rate_conversion_quality::draft, I, D) {}
    void set(i64 op) { output_position = op; input_position = output_position_to_input(op - 1) - output_position_to_input(-1); }
};
static void positions(long I, long D, int b1 = 30, int b2 = 16)
{
    at s(I, D);
    i64 op = (i64)sym::range("op", 0, 1ull << b1), n = (i64)sym::range("n", 0, 1 << b2), m = (i64)sym::range("m", 0, 1 << b2);
    s.set(op);
    i64 a = s.input_size_for_output(n), ab = s.input_size_for_output(n + m);
    sym::check(a >= 0, "requested input is not negative");
    s.set(op + n);
    i64 b = s.input_size_for_output(m);
    sym::check(a + b == ab, "input requested in two steps equals input requested at once");
    sym::check(s.output_position_to_input(op) * I <= op * D && op * D < (s.output_position_to_input(op) + 1) * I, "output position to input position rounds down");
    sym::check(s.input_position_to_output(op) * D <= op * I && op * I < (s.input_position_to_output(op) + 1) * D, "input position to output position rounds down");
}
ENTRY(positions_a) { positions(3, 2); }
ENTRY(positions_b) { positions(2, 3); }
ENTRY(positions_c) { positions(1, 2); }
ENTRY(positions_d) { positions(160, 147, 11, 9); }
