// Helpers shared by the transform harnesses: definition of the DFT and the rounding envelope.
#pragma once
static inline double twc(size_t k, size_t n) { k %= n; return std::cos(2 * 3.14159265358979323846264338327950288 * (double)k / (double)n); }
static inline double tws(size_t k, size_t n) { k %= n; return std::sin(2 * 3.14159265358979323846264338327950288 * (double)k / (double)n); }

template <typename T> constexpr double unit() { return sizeof(T) == 4 ? 5.9604644775390625e-8 : 1.1102230246251565e-16; }
static size_t largest_prime(size_t n) { size_t p = 1; for (size_t d = 2; n > 1; ) if (n % d == 0) { p = d; n /= d; } else d++; return p; }
// Rounding envelope for |input| <= 1: 64 u n (1 + log2 n), and 64 u n^2 more where a prime factor > 100 forces the
// chirp transform (its phases are computed in T). A wrong coefficient is off by about 1.
template <typename T> static double tolr(size_t n)
{
    double l = 1;
    for (size_t m = n; m > 1; m >>= 1) l += 1;
    return 64 * unit<T>() * (double)n * l + (largest_prime(n) > 100 ? 64 * unit<T>() * (double)n * (double)n : 0);
}

