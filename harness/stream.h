// Driver shared by the streaming-filter harnesses: feed a symbolic stream through a filter in arbitrary pieces and
// compare every output sample with the convolution of the whole stream with a reference impulse response.
#pragma once
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/dsp.hpp>
using namespace kfr;
template <typename T> constexpr bool cx = !std::is_same_v<T, subtype<T>>;
template <typename T> constexpr double unit() { return sizeof(subtype<T>) == 4 ? 5.9604644775390625e-8 : 1.1102230246251565e-16; }

struct stream_ref
{
    const double* h; // response, h[j] multiplies x[k-j] (real coefficients)
    size_t nh;
    double tol;
};
// piece(out, in, n): process n samples; buffers are exactly n elements
template <typename T, typename Fn>
static void drive(size_t len, const size_t* cuts, size_t ncuts, bool inplace, stream_ref ref, Fn&& piece)
{
    double *x = new double[len * 2], *v = new double[len], *c = new double[len];
    T* out = aligned_allocate<T>(len, 64);
    for (size_t i = 0; i < len; i++)
    {
        x[2 * i]     = sym::ranged<subtype<T>>("x", -1, 1);
        x[2 * i + 1] = cx<T> ? (double)sym::ranged<subtype<T>>("xi", -1, 1) : 0;
    }
    size_t pos = 0;
    for (size_t q = 0; q < ncuts && pos < len; q++)
    {
        size_t n = cuts[q];
        if (pos + n > len) n = len - pos;
        T* ci = aligned_allocate<T>(n ? n : 1, 64);
        T* co = inplace ? ci : aligned_allocate<T>(n ? n : 1, 64);
        for (size_t i = 0; i < n; i++)
        {
            if constexpr (cx<T>) ci[i] = T((subtype<T>)x[2 * (pos + i)], (subtype<T>)x[2 * (pos + i) + 1]);
            else ci[i] = (T)x[2 * (pos + i)];
        }
        piece(co, ci, n);
        for (size_t i = 0; i < n; i++) out[pos + i] = co[i];
        pos += n;
    }
    for (int im = 0; im < (cx<T> ? 2 : 1); im++)
        for (size_t k = 0; k < pos; k++)
        {
            for (size_t i = 0; i < len; i++) { v[i] = x[2 * i + im]; c[i] = i <= k && k - i < ref.nh ? ref.h[k - i] : 0; }
            double y;
            if constexpr (cx<T>) y = im ? out[k].imag() : out[k].real();
            else y = out[k];
            __sym_close_lin(y, v, c, len, ref.tol, "output sample of the stream");
        }
}
static const size_t SPLITS[][16] = { { 1000 }, { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1000 }, { 3, 2, 4, 1, 5, 3, 0, 1000 }, { 4, 4, 4, 1000 }, { 8, 1, 1000 }, { 7, 9, 1, 1000 }, { 2, 6, 5, 1000 } };
// every way to cut len samples into four calls (one path each)
static inline void anycuts(size_t len, size_t* s)
{
    size_t left = len;
    for (int i = 0; i < 3; i++) { s[i] = sym::pick("cut", 0, len); sym::assume(s[i] <= left); left -= s[i]; }
    s[3] = left;
}
