// Sample format conversion: scaling, clamping, lossless round trips, (de)interleaving, run-time formats.
#include "sym.h"
#include <kfr/base.hpp>
#include <kfr/base/conversion.hpp>
using namespace kfr;
template <typename T> constexpr double S() { return sizeof(T) == 1 ? 127.0 : sizeof(T) == 2 ? 32767.0 : sizeof(T) == 3 ? 8388607.0 : sizeof(T) == 4 ? 2147483647.0 : 9223372036854775807.0; }
template <typename T> static T any_sample(const char* n)
{
    if constexpr (std::is_same_v<T, i24>) return i24(i32(__sym_int(n, 32) << 8) >> 8);
    else return sym::any<T>(n);
}
template <typename T> static int64_t num(T x) { if constexpr (std::is_same_v<T, i24>) return x.as_int(); else return (int64_t)x; }
template <typename T> constexpr int64_t MAX() { return sizeof(T) == 8 ? INT64_MAX : (int64_t(1) << (sizeof(T) * 8 - 1)) - 1; }

// int -> wider format -> int is the identity: both sides are integers, so closer than one means equal
template <typename T, typename Mid> static __attribute__((noinline)) void roundtrip()
{
    int64_t v = __sym_intr("x", sizeof(T) * 8, -MAX<T>(), MAX<T>());
    T x = T((i32)v);
    T y = convert_sample<T>(convert_sample<Mid>(x));
    __sym_close((double)num(y), (double)v, 0.999, "round trip through a wider format");
}
#ifdef __AVX2__ // the emulated rounding of plain sse2 has no real-arithmetic enclosure
ENTRY(roundtrip_i8_f32) { roundtrip<i8, f32>(); }
ENTRY(roundtrip_i8_f64) { roundtrip<i8, f64>(); }
ENTRY(roundtrip_i8_i16) { roundtrip<i8, i16>(); }
ENTRY(roundtrip_i8_i24) { roundtrip<i8, i24>(); }
ENTRY(roundtrip_i8_i32) { roundtrip<i8, i32>(); }
ENTRY(roundtrip_i16_f32) { roundtrip<i16, f32>(); }
ENTRY(roundtrip_i16_f64) { roundtrip<i16, f64>(); }
ENTRY(roundtrip_i16_i24) { roundtrip<i16, i24>(); }
ENTRY(roundtrip_i16_i32) { roundtrip<i16, i32>(); }
ENTRY(roundtrip_i24_f64) { roundtrip<i24, f64>(); }
ENTRY(roundtrip_i24_i32) { roundtrip<i24, i32>(); }
#endif
// float -> int: nearest to the scaled value, saturating
template <typename T, typename F> static __attribute__((noinline)) void quantise()
{
    F x = sym::any<F>("x");
    sym::assume(!sym::isnan_(x));
    int64_t y = num(convert_sample<T>(x));
    sym::check((y >= -MAX<T>()) & (y <= MAX<T>()), "in range");
    sym::check((y >= MAX<T>()) | !(x >= F(1)), "saturates at full scale");
    sym::check((y <= -MAX<T>()) | !(x <= F(-1)), "saturates at negative full scale");
    sym::check((y >= 0) | !(x >= F(0)), "non-negative stays non-negative");
    sym::check((y <= 0) | !(x <= F(0)), "non-positive stays non-positive");
}
ENTRY(quantise_i8_f32) { quantise<i8, f32>(); }
ENTRY(quantise_i16_f32) { quantise<i16, f32>(); }
ENTRY(quantise_i24_f32) { quantise<i24, f32>(); }
ENTRY(quantise_i32_f32) { quantise<i32, f32>(); }
ENTRY(quantise_i8_f64) { quantise<i8, f64>(); }
ENTRY(quantise_i16_f64) { quantise<i16, f64>(); }
template <typename T, typename F> static __attribute__((noinline)) void nearest()
{
    F x = sym::ranged<F>("x", -1, 1);
    double y = (double)num(convert_sample<T>(x));
    __sym_close(y, __sym_xmul(x, S<T>()), 0.6, "nearest sample value");
}
#ifdef __AVX2__
ENTRY(nearest_i8_f32) { nearest<i8, f32>(); }
ENTRY(nearest_i16_f64) { nearest<i16, f64>(); }
ENTRY(nearest_i16_f32) { nearest<i16, f32>(); }
ENTRY(nearest_i24_f64) { nearest<i24, f64>(); }
#endif
template <typename F, typename T> static __attribute__((noinline)) void to_float()
{
    T x = any_sample<T>("x");
    F y = convert_sample<F>(x);
    sym::check((y >= F(-1)) & (y <= F(1)), "in [-1,1]");
    sym::check((y == F(1)) | (num(x) != MAX<T>()), "full scale");
    sym::check((y == F(-1)) | (num(x) > -MAX<T>()), "negative full scale");
    sym::check((y == F(0)) == (num(x) == 0), "zero");
    sym::check((y < F(0)) == (num(x) < 0), "sign");
}
ENTRY(to_float_f32_i8) { to_float<f32, i8>(); }
ENTRY(to_float_f32_i16) { to_float<f32, i16>(); }
ENTRY(to_float_f32_i24) { to_float<f32, i24>(); }
ENTRY(to_float_f32_i32) { to_float<f32, i32>(); }
ENTRY(to_float_f32_i64) { to_float<f32, i64>(); }
ENTRY(to_float_f64_i8) { to_float<f64, i8>(); }
ENTRY(to_float_f64_i16) { to_float<f64, i16>(); }

template <typename T> static bool eq(T a, T b)
{
    if constexpr (std::is_same_v<T, i24>) return memcmp(&a, &b, 3) == 0;
    else return sym::same(a, b);
}
// array of samples (i24 has no default constructor)
template <typename T, size_t N> struct arr
{
    alignas(8) unsigned char b[N * sizeof(T)];
    T& operator[](size_t i) { return data()[i]; }
    T* data() { return reinterpret_cast<T*>(b); }
};
template <typename T> static T blank() { if constexpr (std::is_same_v<T, i24>) return i24(0x123456); else return T{}; }
// ---------------------------------------------------------------- channel (de)interleaving
template <typename Tout, typename Tin> static __attribute__((noinline)) void deinterleave_map(size_t maxch, size_t maxn)
{
    for (size_t ch = 1; ch <= maxch; ch++)
        for (size_t n = 0; n <= maxn; n++)
        {
            arr<Tin, 64> in;
            arr<Tout, 16> out[8];
            const Tout guard = blank<Tout>();
            Tout* ptr[8];
            for (size_t i = 0; i < ch * n; i++) in[i] = any_sample<Tin>("x");
            for (size_t c = 0; c < 8; c++) { ptr[c] = out[c].data(); for (size_t i = 0; i < 16; i++) out[c][i] = guard; }
            deinterleave(ptr, (const Tin*)in.data(), ch, n);
            bool ok = true, clean = true;
            for (size_t c = 0; c < 8; c++)
                for (size_t i = 0; i < 16; i++)
                    if (c < ch && i < n) ok &= eq(out[c][i], convert_sample<Tout>(in[i * ch + c]));
                    else clean &= eq(out[c][i], guard);
            sym::check(ok, "sample i of channel c is interleaved sample i*channels+c");
            sym::check(clean, "nothing else is written");
        }
}
template <typename Tout, typename Tin> static __attribute__((noinline)) void interleave_map(size_t maxch, size_t maxn)
{
    for (size_t ch = 1; ch <= maxch; ch++)
        for (size_t n = 0; n <= maxn; n++)
        {
            arr<Tin, 16> in[8];
            arr<Tout, 80> out;
            const Tout guard = blank<Tout>();
            const Tin* ptr[8];
            for (size_t c = 0; c < 8; c++) { ptr[c] = in[c].data(); for (size_t i = 0; i < n; i++) in[c][i] = any_sample<Tin>("x"); }
            for (size_t i = 0; i < 80; i++) out[i] = guard;
            interleave(out.data(), ptr, ch, n);
            bool ok = true, clean = true;
            for (size_t i = 0; i < 80; i++)
                if (i < ch * n) ok &= eq(out[i], convert_sample<Tout>(in[i % ch][i / ch]));
                else clean &= eq(out[i], guard);
            sym::check(ok, "interleaved sample i*channels+c is sample i of channel c");
            sym::check(clean, "nothing else is written");
        }
}
ENTRY(deinterleave_i16_i16) { deinterleave_map<i16, i16>(6, 9); }
ENTRY(deinterleave_f32_f32) { deinterleave_map<f32, f32>(6, 9); }
ENTRY(deinterleave_f32_i16) { deinterleave_map<f32, i16>(4, 5); }
ENTRY(deinterleave_f64_i24) { deinterleave_map<f64, i24>(3, 4); }
ENTRY(deinterleave_i24_i24) { deinterleave_map<i24, i24>(3, 4); }
ENTRY(interleave_i16_i16) { interleave_map<i16, i16>(6, 9); }
ENTRY(interleave_f32_f32) { interleave_map<f32, f32>(6, 9); }
ENTRY(interleave_f32_i16) { interleave_map<f32, i16>(4, 5); }
ENTRY(interleave_f64_i24) { interleave_map<f64, i24>(3, 4); }
ENTRY(interleave_i24_i24) { interleave_map<i24, i24>(3, 4); }
// the univector overloads, and both directions together
template <typename T, typename U> static __attribute__((noinline)) void univector_forms()
{
    for (size_t ch = 1; ch <= 4; ch++)
        for (size_t n = 0; n <= 5; n++)
        {
            univector2d<T> in(ch);
            for (auto& c : in)
            {
                c = univector<T>(n);
                for (auto& x : c) x = any_sample<T>("x");
            }
            univector<T> il = interleave(in);
            sym::check(il.size() == ch * n, "size of the interleaved signal");
            bool ok = true;
            for (size_t i = 0; i < ch * n; i++) ok &= eq(il[i], in[i % ch][i / ch]);
            sym::check(ok, "interleave(univector2d)");
            univector<U> ilc(ch * n);
            interleave(ilc, in);
            ok = true;
            for (size_t i = 0; i < ch * n; i++) ok &= eq(ilc[i], convert_sample<U>(in[i % ch][i / ch]));
            sym::check(ok, "interleave(univector, univector2d)");
            univector2d<T> back(ch);
            for (auto& c : back) c = univector<T>(n);
            deinterleave(back, il);
            ok = true;
            for (size_t c = 0; c < ch; c++)
                for (size_t i = 0; i < n; i++) ok &= eq(back[c][i], in[c][i]);
            sym::check(ok, "deinterleave undoes interleave");
            univector2d<U> backc(ch);
            for (auto& c : backc) c = univector<U>(n);
            deinterleave(backc, il);
            ok = true;
            for (size_t c = 0; c < ch; c++)
                for (size_t i = 0; i < n; i++) ok &= eq(backc[c][i], convert_sample<U>(in[c][i]));
            sym::check(ok, "deinterleave converts");
        }
}
// the destination decides how many frames are interleaved; a partial frame at the end of the source is left out
template <typename T>
static __attribute__((noinline)) void partial_frames()
{
    for (size_t ch = 1; ch <= 3; ch++)
        for (size_t n = 1; n <= 4; n++)
            for (size_t frames = 1; frames <= n; frames++)
                for (size_t extra = 0; extra < ch; extra++)
                {
                    univector2d<T> in(ch, univector<T>(n));
                    for (size_t c = 0; c < ch; c++) for (size_t i = 0; i < n; i++) in[c][i] = sym::any<T>("s");
                    std::vector<T> buf(ch * n + ch + 3);
                    for (size_t i = 0; i < buf.size(); i++) buf[i] = T(77);
                    univector<T, 0> out(buf.data() + 1, frames * ch + extra);
                    if (frames == n && extra) continue; // longer than the source
                    interleave(out, in);
                    bool ok = buf[0] == T(77);
                    for (size_t i = 0; i < frames; i++) for (size_t c = 0; c < ch; c++) ok &= sym::same(buf[1 + i * ch + c], in[c][i]);
                    sym::check(ok, "interleave into a shorter destination");
                    ok = true;
                    for (size_t i = 1 + frames * ch; i < buf.size(); i++) ok &= buf[i] == T(77);
                    sym::check(ok, "interleave writes whole frames inside the destination only");
                    std::vector<std::vector<T>> room(ch, std::vector<T>(n + 2, T(77)));
                    univector2d<T> back(ch, univector<T>(frames));
                    univector<T> src(frames * ch + extra);
                    for (size_t i = 0; i < src.size(); i++) src[i] = sym::any<T>("t");
                    deinterleave(back, src);
                    ok = true;
                    for (size_t i = 0; i < frames; i++) for (size_t c = 0; c < ch; c++) ok &= sym::same(back[c][i], src[i * ch + c]);
                    sym::check(ok, "deinterleave of a source with a partial frame");
                }
}
ENTRY(partial_frames_i16) { partial_frames<i16>(); }
ENTRY(partial_frames_f32) { partial_frames<f32>(); }
ENTRY(univector_f32_f64) { univector_forms<f32, f64>(); }
ENTRY(univector_i16_f32) { univector_forms<i16, f32>(); }
// ---------------------------------------------------------------- formats known at run time
template <typename T, typename Tin> static __attribute__((noinline)) void from_format(audio_sample_type t)
{
    for (size_t n = 0; n <= 3; n++)
    {
        arr<Tin, 3> in;
        arr<T, 5> out;
        const T guard = blank<T>();
        for (size_t i = 0; i < n; i++) in[i] = any_sample<Tin>("x");
        for (size_t i = 0; i < 5; i++) out[i] = guard;
        convert(out.data(), (const void*)in.data(), t, n);
        bool ok = true;
        for (size_t i = 0; i < 5; i++) ok &= eq(out[i], i < n ? convert_sample<T>(in[i]) : guard);
        sym::check(ok, "convert from a run-time format");
        arr<Tin, 5> o2;
        arr<T, 3> in2;
        memset(o2.b, 0x55, sizeof o2.b);
        for (size_t i = 0; i < n; i++) in2[i] = any_sample<T>("y");
        convert((void*)o2.data(), t, (const T*)in2.data(), n);
        ok = true;
        arr<Tin, 1> g2;
        memset(g2.b, 0x55, sizeof g2.b);
        for (size_t i = 0; i < 5; i++) ok &= eq(o2[i], i < n ? convert_sample<Tin>(in2[i]) : g2[0]);
        sym::check(ok, "convert to a run-time format");
    }
}
template <typename T> static __attribute__((noinline)) void formats()
{
    from_format<T, i8>(audio_sample_type::i8);
    from_format<T, i16>(audio_sample_type::i16);
    from_format<T, i24>(audio_sample_type::i24);
    from_format<T, i32>(audio_sample_type::i32);
    from_format<T, i64>(audio_sample_type::i64);
    from_format<T, f32>(audio_sample_type::f32);
    from_format<T, f64>(audio_sample_type::f64);
}
ENTRY(formats_f32) { formats<f32>(); }
ENTRY(formats_f64) { formats<f64>(); }
ENTRY(formats_i16) { formats<i16>(); }
ENTRY(sizes)
{
    uint32_t t = (uint32_t)sym::any<uint32_t>("type");
    size_t s = audio_sample_sizeof((audio_sample_type)t);
    size_t want = 0;
    auto is = [&](audio_sample_type k, size_t v) { want |= v & -(size_t)(t == (uint32_t)k); };
    is(audio_sample_type::i8, 1); is(audio_sample_type::i16, 2); is(audio_sample_type::i24, 3);
    is(audio_sample_type::i32, 4); is(audio_sample_type::f32, 4); is(audio_sample_type::i64, 8); is(audio_sample_type::f64, 8);
    sym::check(s == want, "bytes per sample");
    sym::check(audio_sample_bit_depth((audio_sample_type)t) == want * 8, "bits per sample");
}
ENTRY(full_scale)
{
    sym::check((convert_sample<i64>(1.0) > 0) & (convert_sample<i64>(2.0) > 0) & (convert_sample<i64>(-1.0) < 0), "full scale does not wrap in i64");
    double x = __sym_f64("x");
    sym::assume(!sym::isnan_(x));
    int64_t y = convert_sample<i64>(x);
    sym::check(((y >= 0) | !(x >= 0)) & ((y <= 0) | !(x <= 0)), "sign is preserved in i64");
}
