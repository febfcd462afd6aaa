From 5e6c4a1c15fc27c8575e7e861b89a311fd95063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 01/52] fix: DCT of sizes whose DFT needs scratch memory
 overwrote its own input

dct_plan placed its intermediate buffers at the end of the temporary buffer,
where dft_plan keeps its scratch, so the DCT of e.g. 12 samples was wrong.
---
 include/kfr/dft/fft.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..0aa6087 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -853,7 +853,10 @@ private:
 template <typename T>
 struct dct_plan : dft_plan<T>
 {
-    dct_plan(size_t size) : dft_plan<T>(size) { this->temp_size += sizeof(complex<T>) * size * 2; }
+    dct_plan(size_t size) : dft_plan<T>(size)
+    {
+        this->temp_size += sizeof(complex<T>) * size * 2 + scratch_size(size);
+    }
 
     [[deprecated("cpu parameter is deprecated. Runtime dispatch is used if built with "
                  "KFR_ENABLE_MULTIARCH")]] dct_plan(cpu_t cpu, size_t size)
@@ -865,10 +868,11 @@ struct dct_plan : dft_plan<T>
     {
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
-        univector_ref<complex<T>> mirrored = make_univector(
-            ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size * 2), size);
+        // dft_plan keeps its own scratch at the very end of the temporary buffer
+        u8* const mirrored_data = temp + this->temp_size - scratch_size(size) - sizeof(complex<T>) * size * 2;
+        univector_ref<complex<T>> mirrored = make_univector(ptr_cast<complex<T>>(mirrored_data), size);
         univector_ref<complex<T>> mirrored_dft =
-            make_univector(ptr_cast<complex<T>>(temp + this->temp_size - sizeof(complex<T>) * size), size);
+            make_univector(ptr_cast<complex<T>>(mirrored_data + sizeof(complex<T>) * size), size);
         auto t = counter() * c_pi<T> / (size * 2);
         if (!inverse)
         {
@@ -907,6 +911,12 @@ struct dct_plan : dft_plan<T>
     {
         execute(out.data(), in.data(), temp.data(), inverse);
     }
+
+private:
+    static size_t scratch_size(size_t size)
+    {
+        return align_up(sizeof(complex<T>) * (size + 1), platform<>::native_cache_alignment);
+    }
 };
 
 inline namespace CMT_ARCH_NAME
-- 
2.43.0


From 6a836047108f7681dee309e5f3ee47ade8cf6e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 02/52] fix: dct_plan dereferenced a null temporary buffer

A null temp is documented to be allocated internally, as for dft_plan.
---
 include/kfr/dft/fft.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index 0aa6087..4d17abd 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -866,6 +866,10 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr)
+        {
+            return call_with_temp(this->temp_size, [&](u8* t) { execute(out, in, t, inverse); });
+        }
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
         // dft_plan keeps its own scratch at the very end of the temporary buffer
-- 
2.43.0


From 5fae02a93201d43c1850aba4725b581b3706cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 03/52] fix: convolve and correlate dropped the imaginary part
 of complex results

---
 src/dft/convolution-impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dft/convolution-impl.cpp b/src/dft/convolution-impl.cpp
index 5c58803..1d9d7a5 100644
--- a/src/dft/convolution-impl.cpp
+++ b/src/dft/convolution-impl.cpp
@@ -121,7 +121,10 @@ univector<T> convolve(const univector_ref<const T>& src1, const univector_ref<co
     src1padded = src1padded * src2padded;
     dft->execute(src1padded, src1padded, temp, true);
     const ST invsize = reciprocal<ST>(static_cast<ST>(size));
-    return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    if constexpr (std::is_same_v<T, ST>)
+        return truncate(real(src1padded), src1.size() + src2.size() - 1) * invsize;
+    else
+        return truncate(src1padded, src1.size() + src2.size() - 1) * invsize;
 }
 template univector<f32> convolve<f32>(const univector_ref<const f32>&, const univector_ref<const f32>&, bool);
 template univector<f64> convolve<f64>(const univector_ref<const f64>&, const univector_ref<const f64>&, bool);
-- 
2.43.0


From 01b7b362070a6c08b883f86746ee9819f18a0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 04/52] fix: fir_state moved from coefficients passed as an
 lvalue

---
 include/kfr/dsp/fir.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..d51da5a 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -99,7 +99,8 @@ struct fir_state
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-    fir_state(Cont&& taps) : params(std::move(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
+    fir_state(Cont&& taps)
+        : params(std::forward<Cont>(taps)), delayline(params.taps.size(), U(0)), delayline_cursor(0)
     {
     }
     template <typename Cont, CMT_HAS_DATA_SIZE(Cont)>
-- 
2.43.0


From 00b8c4525020a16bc1a85c3b5a9ff14356c18912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 05/52] fix: IIR cascade lost its state after blocks shorter
 than the number of sections

---
 include/kfr/dsp/biquad.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..a8dbcb0 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -314,7 +314,8 @@ KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& s
     {
         in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // if the block ends within this look-ahead, no later step will save the state
+    internal::biquad_process(*self.state, in, size <= filters - 1 ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-- 
2.43.0


From e545ea9369800c1a551ce4ebb12af39760f6402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 06/52] fix: iir_filter::reset did not reset the filter

---
 include/kfr/dsp/biquad.hpp | 9 +++++++++
 src/dsp/biquad.cpp         | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index a8dbcb0..d7fe057 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -510,6 +510,15 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// @brief Resets internal state
+    void reset() override
+    {
+        this->filter_expr = iir_filter(iir_params<T>(sections.data(), sections.size())).filter_expr;
+    }
+
+private:
+    std::vector<biquad_section<T>> sections;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..bf2445d 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,7 +52,7 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : sections(params.begin(), params.end())
 {
     CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
 }
-- 
2.43.0


From 5f0e8660735e8edc02134aecea305e9c704750f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 07/52] fix: ring buffer access with more elements than the
 buffer holds

---
 include/kfr/base/univector.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/kfr/base/univector.hpp b/include/kfr/base/univector.hpp
index 945412d..e6bb1cf 100644
--- a/include/kfr/base/univector.hpp
+++ b/include/kfr/base/univector.hpp
@@ -169,8 +169,10 @@ struct univector_base<T, Class, true>
         T* data           = get_data();
         if (srcsize > size)
         {
-            src     = src + srcsize / size;
-            srcsize = srcsize % size;
+            const size_t skip = srcsize - size;
+            src               = src + skip;
+            srcsize           = size;
+            cursor            = (cursor + skip) % size;
         }
         const size_t fsize = size - cursor;
         // one fragment
@@ -200,7 +202,7 @@ struct univector_base<T, Class, true>
     {
         const size_t size = get_size();
         cursor            = cursor + step;
-        cursor            = cursor >= size ? cursor - size : cursor;
+        cursor            = cursor >= size ? cursor % size : cursor;
     }
     void ringbuf_read(size_t& cursor, T& value)
     {
@@ -217,13 +219,15 @@ struct univector_base<T, Class, true>
     {
         if (CMT_UNLIKELY(destsize == 0))
             return;
-        // skip redundant data
         const size_t size = get_size();
         const T* data     = get_data();
-        if (destsize > size)
+        // more than the whole buffer is requested, read it repeatedly
+        while (destsize > size)
         {
-            dest     = dest + destsize / size;
-            destsize = destsize % size;
+            copy(dest, data + cursor, size - cursor);
+            copy(dest + (size - cursor), data, cursor);
+            dest += size;
+            destsize -= size;
         }
         const size_t fsize = size - cursor;
         // one fragment
-- 
2.43.0


From 237d9219e2890792dd697a4cc0aac9aefd55f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 08/52] fix: moving_sum of length 1 read past its delay line

---
 include/kfr/dsp/fir.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d51da5a..71dd242 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -119,14 +119,17 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(delayline.size() > 1 ? 1 : 0) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length)
+        : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From 5defdd3a56e607071a48460138f212ea4bba1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 09/52] fix: signed satadd/satsub returned the first operand
 instead of the limit

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 62dae1649a561c98dbdaa45bb43204d12bbb7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 10/52] fix: 8-bit shifts and signed 64-bit right shift without
 vector extensions

---
 .../kfr/simd/impl/basicoperators_generic.hpp  | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index 5da2829..3f91c1b 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -192,45 +192,45 @@ KFR_INTRINSIC u8sse shl(const u8sse& x, unsigned y)
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_slli_epi16(l, y);
-    __m128i hh = _mm_slli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(_mm_slli_epi16(l, y), 8);
+    __m128i hh = _mm_srli_epi16(_mm_slli_epi16(h, y), 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_slli_epi16(l, y);
-    __m128i hh = _mm_slli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(_mm_slli_epi16(l, y), 8);
+    __m128i hh = _mm_srli_epi16(_mm_slli_epi16(h, y), 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_srli_epi16(l, y);
-    __m128i hh = _mm_srli_epi16(h, y);
+    __m128i ll = _mm_srli_epi16(l, y + 8);
+    __m128i hh = _mm_srli_epi16(h, y + 8);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
 {
     __m128i l = _mm_unpacklo_epi8(_mm_setzero_si128(), x.v);
     __m128i h = _mm_unpackhi_epi8(_mm_setzero_si128(), x.v);
 
-    __m128i ll = _mm_srai_epi16(l, y);
-    __m128i hh = _mm_srai_epi16(h, y);
+    __m128i ll = _mm_srai_epi16(l, y + 8);
+    __m128i hh = _mm_srai_epi16(h, y + 8);
 
     return _mm_packs_epi16(ll, hh);
 }
 
 KFR_INTRINSIC i64sse shr(const i64sse& x, unsigned y)
 {
-    KFR_COMPONENTWISE_RET_I(u64sse, result[i] = x[i] >> y);
+    KFR_COMPONENTWISE_RET_I(i64sse, result[i] = x[i] >> y);
 }
 
 template <typename T, size_t N, typename = decltype(uibitcast(T())), KFR_ENABLE_IF(is_simd_size<T>(N))>
@@ -682,42 +682,42 @@ KFR_INTRINSIC u64avx shr(const u64avx& x, unsigned y) { return _mm256_srli_epi64
 KFR_INTRINSIC i64avx shl(const i64avx& x, unsigned y) { return _mm256_slli_epi64(x.v, y); }
 KFR_INTRINSIC i64avx shr(const i64avx& x, unsigned y)
 {
-    KFR_COMPONENTWISE_RET_I(u64avx, result[i] = x[i] >> y);
+    KFR_COMPONENTWISE_RET_I(i64avx, result[i] = x[i] >> y);
 }
 
 KFR_INTRINSIC u8avx shl(const u8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_slli_epi16(l, y);
-    __m256i hh = _mm256_slli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(_mm256_slli_epi16(l, y), 8);
+    __m256i hh = _mm256_srli_epi16(_mm256_slli_epi16(h, y), 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_slli_epi16(l, y);
-    __m256i hh = _mm256_slli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(_mm256_slli_epi16(l, y), 8);
+    __m256i hh = _mm256_srli_epi16(_mm256_slli_epi16(h, y), 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_srli_epi16(l, y);
-    __m256i hh = _mm256_srli_epi16(h, y);
+    __m256i ll = _mm256_srli_epi16(l, y + 8);
+    __m256i hh = _mm256_srli_epi16(h, y + 8);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(ll, hh);
 }
 KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
 {
     __m256i l  = _mm256_unpacklo_epi8(_mm256_setzero_si256(), x.v);
     __m256i h  = _mm256_unpackhi_epi8(_mm256_setzero_si256(), x.v);
-    __m256i ll = _mm256_srai_epi16(l, y);
-    __m256i hh = _mm256_srai_epi16(h, y);
+    __m256i ll = _mm256_srai_epi16(l, y + 8);
+    __m256i hh = _mm256_srai_epi16(h, y + 8);
 
     return _mm256_packs_epi16(ll, hh);
 }
-- 
2.43.0


From f097aefea50d9f3dbab3fb6e0171cca877146c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 11/52] fix: SSE2 rounding of NaN, large values and predecessor
 of 0.5

---
 include/kfr/simd/impl/round.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index d20ad45..e153636 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -135,53 +135,53 @@ KFR_HANDLE_ALL_SIZES_1_IF(fract, is_f_class<T>)
 template <typename T>
 constexpr inline T fp_precision_limit = 4503599627370496.0;
 template <>
-constexpr inline f32 fp_precision_limit<f32> = 16777216.0f;
+constexpr inline f32 fp_precision_limit<f32> = 8388608.0f;
 
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t - select(x < t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t - select(x < t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
     vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) >= fp_precision_limit<f32>, x, t + select(x > t, 1.f, 0.f));
+    return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
     vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) >= fp_precision_limit<f64>, x, t + select(x > t, 1., 0.));
+    return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.5f), x))));
+    return select(abs(x) < fp_precision_limit<f32>,
+                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.49999997f), x))), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.5), x))));
+    return select(abs(x) < fp_precision_limit<f64>,
+                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.49999999999999994), x))), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f32>, x, broadcastto<f32>(broadcastto<i32>(x)));
+    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
 {
-    return select(abs(x) >= fp_precision_limit<f64>, x, broadcastto<f64>(broadcastto<i64>(x)));
+    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
-- 
2.43.0


From 92976d8f565b197a73e8085ba11bb9723859735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 12/52] fix: copysign and isnegative of floating-point vectors

---
 include/kfr/simd/comparison.hpp | 2 +-
 include/kfr/simd/operators.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/comparison.hpp b/include/kfr/simd/comparison.hpp
index 573090c..0c2b74e 100644
--- a/include/kfr/simd/comparison.hpp
+++ b/include/kfr/simd/comparison.hpp
@@ -92,7 +92,7 @@ KFR_INTRINSIC mask<T, N> isfinite(const vec<T, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC mask<T, N> isnegative(const vec<T, N>& x)
 {
-    return (x & special_constants<T>::highbitmask()) != 0;
+    return ((x & special_constants<T>::highbitmask()) | T(1)) < T(0);
 }
 
 template <typename T, size_t N>
diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..40d98cf 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -593,7 +593,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From eab1f194f70d187b4a659377ee94049f08b2ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 13/52] fix: histogram of integers whose type cannot represent
 the bin index

---
 include/kfr/base/reduce.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/reduce.hpp b/include/kfr/base/reduce.hpp
index 67ba03a..0c9ad67 100644
--- a/include/kfr/base/reduce.hpp
+++ b/include/kfr/base/reduce.hpp
@@ -193,8 +193,10 @@ struct histogram_data
         }
         else
         {
-            const vec<T, N> x = 1 + value;
-            indices           = cast<uint64_t>(clamp(x, T(0), T(size() + 1)));
+            // the bin index may not be representable in T
+            indices = 1 + min(cast<uint64_t>(value), vec<u64, N>(size()));
+            if constexpr (std::is_signed_v<subtype<T>>)
+                indices = select(value < T(0), 0, indices);
         }
         CMT_LOOP_UNROLL
         for (size_t i = 0; i < N; ++i)
-- 
2.43.0


From fae4b162ea769b195a72840196685da9823de6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 14/52] fix: negative start and stop of tensor ranges with
 negative step

---
 include/kfr/base/tensor.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index a0fdacc..0fdf02b 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -424,17 +424,19 @@ public:
         signed_index_t tstep = iidx.step.value_or(1);
         signed_index_t tstart;
         signed_index_t tstop;
+        // negative values count from the end
+        const auto from_end = [tsize](signed_index_t index) { return index < 0 ? tsize + index : index; };
         if (tstep >= 0)
         {
-            tstart = iidx.start.value_or(0);
+            tstart = from_end(iidx.start.value_or(0));
             tstop  = iidx.stop.value_or(tsize);
         }
         else
         {
-            tstart = iidx.start ? *iidx.start + 1 : tsize;
-            tstop  = iidx.stop ? *iidx.stop + 1 : 0;
+            // half-open range [tstop, tstart), traversed backwards
+            tstart = iidx.start ? from_end(*iidx.start) + 1 : tsize;
+            tstop  = iidx.stop ? from_end(*iidx.stop) + 1 : 0;
         }
-        tstart = tstart < 0 ? tsize + tstart : tstart;
         tstart = std::max(std::min(tstart, tsize), signed_index_t(0));
         if (tstep == 0)
         {
@@ -444,7 +446,8 @@ public:
         }
         else
         {
-            tstop = tstop < 0 ? tsize + tstop : tstop;
+            if (tstep >= 0)
+                tstop = from_end(tstop);
             tstop = std::max(std::min(tstop, tsize), signed_index_t(0));
             if (tstep >= 0)
             {
-- 
2.43.0


From 331c8272e049e789cc83ca7a3291cc1be81aa863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 15/52] fix: self-assignment of tensor

---
 include/kfr/base/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 0fdf02b..09126a6 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -361,12 +361,16 @@ public:
 #if defined(CMT_COMPILER_IS_MSVC) || true
     tensor& operator=(const tensor& src) &
     {
+        if (this == &src)
+            return *this;
         this->~tensor();
         new (this) tensor(src);
         return *this;
     }
     tensor& operator=(tensor&& src) &
     {
+        if (this == &src)
+            return *this;
         this->~tensor();
         new (this) tensor(std::move(src));
         return *this;
-- 
2.43.0


From 4dded95c40bea6159b51d8fed4910d9aa7096281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 16/52] fix: mismatched delete of the cycle bitmap in
 matrix_transpose

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index edace25..c89585d 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -329,7 +329,7 @@ public:
     ~matrix_cycles()
     {
         if (data != on_stack)
-            delete data;
+            delete[] data;
     }
 
     size_t next_cycle_origin(size_t origin = 0)
-- 
2.43.0


From e42495c48d1c6f23fd3d33d465f31cbb1d797a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 17/52] fix: assignment of a non-const tensor copied elements
 instead of sharing

---
 include/kfr/base/tensor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfr/base/tensor.hpp b/include/kfr/base/tensor.hpp
index 09126a6..d248d3e 100644
--- a/include/kfr/base/tensor.hpp
+++ b/include/kfr/base/tensor.hpp
@@ -375,6 +375,8 @@ public:
         new (this) tensor(std::move(src));
         return *this;
     }
+    // non-const lvalue: same as above, not an elementwise assignment
+    tensor& operator=(tensor& src) & { return operator=(const_cast<const tensor&>(src)); }
 #else
     tensor& operator=(const tensor& src) & = default;
     tensor& operator=(tensor&& src) &      = default;
-- 
2.43.0


From 3eb74798fe27199739a6ceb006a665e94668b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 18/52] fix: matrix_transpose of vectors with padding

---
 include/kfr/base/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/transpose.hpp b/include/kfr/base/transpose.hpp
index c89585d..fd57522 100644
--- a/include/kfr/base/transpose.hpp
+++ b/include/kfr/base/transpose.hpp
@@ -645,7 +645,7 @@ template <typename T, index_t Dims>
 void matrix_transpose(T* out, const T* in, shape<Dims> shape)
 {
     using U                = typename compound_type_traits<T>::deep_subtype;
-    constexpr size_t width = compound_type_traits<T>::deep_width;
+    constexpr size_t width = sizeof(T) / sizeof(U); // vec may be padded, e.g. vec<float, 3>
     return internal::matrix_transpose<U, width, Dims>(ptr_cast<vec<U, width>>(out),
                                                       ptr_cast<vec<U, width>>(in), shape);
 }
-- 
2.43.0


From d91686dbbfa3c62ba88505f54ddbb781b7b5f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 19/52] fix: conversion of samples to integers truncated,
 losing one step in a round trip

---
 include/kfr/base/conversion.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..3a6224a 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -26,6 +26,7 @@
 #pragma once
 
 #include "../simd/clamp.hpp"
+#include "../simd/round.hpp"
 #include "../simd/types.hpp"
 #include "../simd/vec.hpp"
 #include "univector.hpp"
@@ -183,7 +184,11 @@ template <typename Tout, typename Tin, typename Tout_traits = audio_sample_trait
 inline Tout convert_sample(const Tin& in)
 {
     constexpr auto scale = Tout_traits::scale / Tin_traits::scale;
-    return broadcastto<Tout>(clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale));
+    const auto value     = clamp(in * scale, -Tout_traits::scale, +Tout_traits::scale);
+    if constexpr (std::is_floating_point_v<Tout>)
+        return broadcastto<Tout>(value);
+    else
+        return broadcastto<Tout>(round(value)); // truncation would lose one step in a round trip
 }
 
 /// @brief Deinterleaves and converts audio samples
-- 
2.43.0


From 12e487c368764f4d94fe76607a54499785d72b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 20/52] fix: full-scale samples overflowed when converted to
 i64

---
 include/kfr/base/conversion.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 3a6224a..89ef797 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -154,7 +154,8 @@ struct audio_sample_traits<i32>
 template <>
 struct audio_sample_traits<i64>
 {
-    constexpr static f64 scale              = 9223372036854775807.0;
+    // the greatest double that fits in i64
+    constexpr static f64 scale              = 9223372036854774784.0;
     constexpr static audio_sample_type type = audio_sample_type::i64;
 };
 
-- 
2.43.0


From 98dfc74d27c5cddaaa0153b5d761e50210975138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 21/52] fix: concatenate and reshape took the shape of an
 argument they had moved from

---
 include/kfr/base/basic_expressions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 51be798..4dd3c2a 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -546,7 +546,7 @@ struct expression_reshape : public expression_with_arguments<Arg>
     shape<OutDims> out_shape;
 
     KFR_MEM_INTRINSIC expression_reshape(Arg&& arg, const shape<OutDims>& out_shape)
-        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(arg)),
+        : expression_with_arguments<Arg>{ std::forward<Arg>(arg) }, in_shape(ArgTraits::get_shape(this->first())),
           out_shape(out_shape)
     {
     }
@@ -780,7 +780,7 @@ struct expression_concatenate : public expression_with_arguments<Arg1, Arg2>
 
     KFR_MEM_INTRINSIC expression_concatenate(Arg1&& arg1, Arg2&& arg2)
         : expression_with_arguments<Arg1, Arg2>{ std::forward<Arg1>(arg1), std::forward<Arg2>(arg2) },
-          size1(expression_traits<Arg1>::get_shape(arg1))
+          size1(expression_traits<Arg1>::get_shape(std::get<0>(this->args)))
     {
     }
 };
-- 
2.43.0


From c01fd372d1dc53942a38c9f4aa98df3653e905c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 22/52] fix: writing through reshape put elements at the wrong
 place at the end of a row

---
 include/kfr/base/basic_expressions.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 4dd3c2a..fce3608 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -655,16 +655,19 @@ KFR_INTRINSIC void set_elements(expression_reshape<Arg, outdims>& self, const sh
 
         bool done = false;
 
-        cforeach(cvalseq_t<index_t, indims, 0>{},
-                 [&](auto n) CMT_INLINE_LAMBDA
-                 {
-                     constexpr index_t axis = val_of<decltype(n)>({});
-                     if (!done && diff_idx[axis] == N - 1)
+        if (diff_idx.sum() == N - 1)
+        {
+            cforeach(cvalseq_t<index_t, indims, 0>{},
+                     [&](auto n) CMT_INLINE_LAMBDA
                      {
-                         set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
-                         done = true;
-                     }
-                 });
+                         constexpr index_t axis = val_of<decltype(n)>({});
+                         if (!done && diff_idx[axis] == N - 1)
+                         {
+                             set_elements(self.first(), first_idx, axis_params<axis, N>{}, value);
+                             done = true;
+                         }
+                     });
+        }
 
         if (!done)
         {
-- 
2.43.0


From 0ab32f9de8385ef30228b22ff2d1d900d3a1b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 23/52] fix: process() wrote beyond the requested range when it
 starts at a position that is not a multiple of the width

---
 include/kfr/base/expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index 34aea3e..fb5a934 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -615,14 +615,14 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 set_elements(out, outidx, axis_params_v<OutAxis, w>, repeat<w>(val));
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             set_elements(out, outidx, axis_params_v<OutAxis, gw>, repeat<gw>(val));
@@ -635,7 +635,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
-            for (; x < stop / w * w; x += w)
+            for (; x + w <= stop; x += w)
             {
                 outidx[OutAxis] = x;
                 inidx[InAxis]   = std::min(x, insize - 1);
@@ -645,7 +645,7 @@ KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t
             }
         }
         CMT_LOOP_NOUNROLL
-        for (; x < stop / gw * gw; x += gw)
+        for (; x + gw <= stop; x += gw)
         {
             outidx[OutAxis] = x;
             inidx[InAxis]   = std::min(x, insize - 1);
-- 
2.43.0


From 6bae6b7033b0a122c7391e77d09c76b4c5e56b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 24/52] fix: reverse of multidimensional expressions read the
 wrong elements

---
 include/kfr/base/basic_expressions.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index fce3608..5144fdb 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -450,7 +450,9 @@ template <typename Arg, index_t Axis, size_t N, typename Traits = expression_tra
 KFR_INTRINSIC vec<T, N> get_elements(const expression_reverse<Arg>& self, const shape<Traits::dims>& index,
                                      const axis_params<Axis, N>& sh)
 {
-    return reverse(get_elements(self.first(), self.input_shape.sub(index).sub(shape<Traits::dims>(N)), sh));
+    shape<Traits::dims> first = self.input_shape.sub(index).sub(shape<Traits::dims>(1));
+    first[Axis] -= N - 1;
+    return reverse(get_elements(self.first(), first, sh));
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 4832840002003637839c3eff2bfd78a6d20359c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 25/52] fix: linspace of one element with endpoint returned NaN

---
 include/kfr/base/basic_expressions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index 5144fdb..ceba919 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -703,7 +703,8 @@ struct expression_linspace
     T invsize;
 
     expression_linspace(T start, T stop, size_t size, bool endpoint = false)
-        : start(start), stop(stop), size(size), invsize(T(1.0) / T(endpoint ? size - 1 : size))
+        : start(start), stop(stop), size(size), endpoint(endpoint),
+          invsize(T(1.0) / T(endpoint && size > 1 ? size - 1 : size))
     {
     }
 
-- 
2.43.0


From 7da7aac8d5de6bb751f62e2bc9faac0dcc912538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 26/52] fix: gen_cossin lost its phase after an odd number of
 elements

---
 include/kfr/base/generators.hpp | 36 ++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/generators.hpp b/include/kfr/base/generators.hpp
index bc68e0b..cf22a05 100644
--- a/include/kfr/base/generators.hpp
+++ b/include/kfr/base/generators.hpp
@@ -204,17 +204,51 @@ struct generator_cossin : public generator<T, VecWidth, generator_cossin<T, VecW
     {
         this->resync(start);
     }
-    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT { this->value = init_cossin(step, start); }
+    KFR_MEM_INTRINSIC void sync(T start) const CMT_NOEXCEPT
+    {
+        this->value = init_cossin(step, start);
+        half        = false;
+    }
 
     KFR_MEM_INTRINSIC void next() const CMT_NOEXCEPT
     {
         this->value = this->value - subadd(alpha * this->value, beta * swap<2>(this->value));
     }
 
+    template <size_t N>
+    friend KFR_INTRINSIC vec<T, N> get_elements(const generator_cossin& self, const shape<1>& index,
+                                                const axis_params<0, N>&)
+    {
+        return self.template generate_any<N>();
+    }
+
 protected:
+    // next() needs complete pairs, so value is always advanced by an even number of elements
+    template <size_t N>
+    KFR_MEM_INTRINSIC vec<T, N> generate_any() const
+    {
+        if (!half && N % 2 == 0)
+            return this->template generate<N>();
+        constexpr size_t Npeek      = N + 2 - N % 2;
+        const vec<T, VecWidth> save = this->value;
+        const vec<T, Npeek> x       = this->template generate<Npeek>();
+        if (half && N % 2 != 0)
+        {
+            half = false;
+            return slice<1, N>(x);
+        }
+        this->value = save;
+        if constexpr (Npeek > 2)
+            this->template generate<Npeek - 2>();
+        const bool skip = half;
+        half            = true;
+        return skip ? slice<1, N>(x) : slice<0, N>(x);
+    }
+
     T step;
     T alpha;
     T beta;
+    mutable bool half = false; // the first element of value has already been returned
     CMT_NOINLINE static vec<T, VecWidth> init_cossin(T w, T phase)
     {
         return cossin(dup(phase + enumerate(vec_shape<T, VecWidth / 2>{}, w)));
-- 
2.43.0


From 0cfd650d3daea6cf832ae703f8e7df67256e057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 27/52] fix: lambda expressions evaluated along an axis other
 than the last one

---
 include/kfr/base/basic_expressions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index ceba919..bece321 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -316,7 +316,7 @@ KFR_INTRINSIC vec<T, N> get_elements(const expression_lambda<T, Dims, Fn, Rnd>&
         for (index_t i = 0; i < N; ++i)
         {
             result[i] = self.fn(cur_index);
-            ++cur_index.back();
+            ++cur_index[Axis];
         }
         return result;
     }
-- 
2.43.0


From 915714a9f7e5a5607159084c108c6d6bf1988570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 28/52] fix: arguments broadcast along the vector axis when it
 is not the last one

---
 include/kfr/base/expression.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/kfr/base/expression.hpp b/include/kfr/base/expression.hpp
index fb5a934..1edd345 100644
--- a/include/kfr/base/expression.hpp
+++ b/include/kfr/base/expression.hpp
@@ -548,23 +548,30 @@ KFR_MEM_INTRINSIC vec<typename Traits::value_type, N> get_arg(const expression_f
     {
         return repeat<N>(get_elements(std::get<idx>(self.args), {}, axis_params<0, 1>{}));
     }
+    else if constexpr (Traits::dims + VecAxis < Dims)
+    {
+        // the argument does not extend along the vector axis
+        auto indices = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
+        return repeat<N>(
+            get_elements(std::get<idx>(self.args), indices, axis_params<Traits::dims - 1, 1>{}));
+    }
     else
     {
         constexpr size_t NewVecAxis = Traits::dims - (Dims - VecAxis);
         auto indices                = internal_generic::adapt<Traits::dims>(index, self.getmask(csize<idx>));
-        constexpr index_t last_dim  = Traits::get_shape().back();
-        if constexpr (last_dim != undefined_size)
+        constexpr index_t axis_size = Traits::get_shape()[NewVecAxis];
+        if constexpr (axis_size != undefined_size)
         {
-            constexpr index_t last_dim_pot = prev_poweroftwo(last_dim);
-            return repeat<N / std::min(last_dim_pot, static_cast<index_t>(N))>(
+            constexpr index_t axis_size_pot = prev_poweroftwo(axis_size);
+            return repeat<N / std::min(axis_size_pot, static_cast<index_t>(N))>(
                 get_elements(std::get<idx>(self.args), indices,
-                             axis_params<NewVecAxis, std::min(last_dim_pot, static_cast<index_t>(N))>{}));
+                             axis_params<NewVecAxis, std::min(axis_size_pot, static_cast<index_t>(N))>{}));
         }
         else
         {
             if constexpr (sizeof...(Args) > 1 && N > 1)
             {
-                if (CMT_UNLIKELY(self.masks[idx].back() == 0))
+                if (CMT_UNLIKELY(self.masks[idx][maximum_dims - Dims + VecAxis] == 0))
                     return get_elements(std::get<idx>(self.args), indices, axis_params<NewVecAxis, 1>{})
                         .front();
                 else
@@ -608,10 +615,10 @@ template <typename Out, typename In, index_t OutAxis, size_t w, size_t gw, typen
 KFR_INTRINSIC static void tprocess_body(Out&& out, In&& in, size_t start, size_t stop, size_t insize,
                                         shape<outdims> outidx, shape<indims> inidx)
 {
-    if constexpr (indims == 0)
+    if constexpr (OutAxis + indims < outdims || indims == 0) // the input does not extend along the axis
     {
         size_t x              = start;
-        const vec<Tin, 1> val = get_elements(in, inidx, axis_params_v<0, 1>);
+        const vec<Tin, 1> val = get_elements(in, inidx, axis_params_v<indims == 0 ? 0 : indims - 1, 1>);
         if constexpr (w > gw)
         {
             CMT_LOOP_NOUNROLL
@@ -751,7 +758,7 @@ static auto process(Out&& out, In&& in, shape<outdims> start = shape<outdims>(0)
     shape<outdims> stop = min(min(add_shape(start, size), outshape), inshape.template extend<outdims>());
 
     index_t in_size = 0;
-    if constexpr (indims > 0)
+    if constexpr (indims > 0 && out_axis + indims >= outdims)
         in_size = inshape[in_axis];
 
     begin_pass(out, start, stop);
-- 
2.43.0


From 8623711e9c760660ce133885edf3b195ffa64a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 29/52] fix: slice starting past the end of its argument had a
 wrapped size

---
 include/kfr/base/shape.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/shape.hpp b/include/kfr/base/shape.hpp
index 2a95757..cdea189 100644
--- a/include/kfr/base/shape.hpp
+++ b/include/kfr/base/shape.hpp
@@ -201,7 +201,7 @@ struct shape : static_array_base<index_t, csizeseq_t<Dims>>
     friend constexpr shape sub_shape(const shape& lhs, const shape& rhs)
     {
         return lhs.bin(rhs, [](index_t x, index_t y)
-                       { return std::max(x, y) == infinite_size ? infinite_size : x - y; });
+                       { return std::max(x, y) == infinite_size ? infinite_size : x - std::min(x, y); });
     }
     friend constexpr shape add_shape_undef(const shape& lhs, const shape& rhs)
     {
-- 
2.43.0


From e04b37762e33e2bf1c9bd1a8fd986f26e450b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 30/52] fix: concatenation with an empty expression had size
 zero

---
 include/kfr/base/basic_expressions.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index bece321..d88528d 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -801,10 +801,10 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     constexpr static size_t dims        = ArgTraits1::dims;
     constexpr static bool random_access = ArgTraits1::random_access && ArgTraits2::random_access;
 
-    KFR_INTRINSIC static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2)
+    KFR_INTRINSIC constexpr static shape<dims> concat_shape(const shape<dims>& sh1, const shape<dims>& sh2,
+                                                            const shape<dims>& sum)
     {
         shape<dims> result = min(sh1, sh2);
-        shape<dims> sum    = add_shape_undef(sh1, sh2);
         result[ConcatAxis] = sum[ConcatAxis];
         return result;
     }
@@ -812,12 +812,15 @@ struct expression_traits<expression_concatenate<Arg1, Arg2, ConcatAxis>> : expre
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape(
         const expression_concatenate<Arg1, Arg2, ConcatAxis>& self)
     {
-        return concat_shape(ArgTraits1::get_shape(std::get<0>(self.args)),
-                            ArgTraits2::get_shape(std::get<1>(self.args)));
+        // at run time zero is the size of an empty argument
+        const shape<dims> sh1 = ArgTraits1::get_shape(std::get<0>(self.args));
+        const shape<dims> sh2 = ArgTraits2::get_shape(std::get<1>(self.args));
+        return concat_shape(sh1, sh2, add_shape(sh1, sh2));
     }
     KFR_MEM_INTRINSIC constexpr static shape<dims> get_shape()
     {
-        return concat_shape(ArgTraits1::get_shape(), ArgTraits2::get_shape());
+        return concat_shape(ArgTraits1::get_shape(), ArgTraits2::get_shape(),
+                            add_shape_undef(ArgTraits1::get_shape(), ArgTraits2::get_shape()));
     }
 };
 
-- 
2.43.0


From e2c135a80ce0edcf8550debe53927e8d61a148c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 31/52] fix: dimensions() repeated one element instead of the
 expression along the last axis

---
 include/kfr/base/basic_expressions.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/kfr/base/basic_expressions.hpp b/include/kfr/base/basic_expressions.hpp
index d88528d..bbb1108 100644
--- a/include/kfr/base/basic_expressions.hpp
+++ b/include/kfr/base/basic_expressions.hpp
@@ -1060,13 +1060,15 @@ struct expression_dimensions : public expression_with_traits<E>
                                                          axis_params<VecAxis, N> sh)
     {
         shape<in_dims> inindex = index.template trim<in_dims>();
-        if constexpr (VecAxis >= in_dims)
+        if constexpr (VecAxis + in_dims < dims || in_dims == 0)
         {
-            return repeat<N>(get_elements(self.first(), inindex, axis_params_v<0, 1>));
+            // the argument does not extend along the vector axis
+            return repeat<N>(
+                get_elements(self.first(), inindex, axis_params_v<in_dims == 0 ? 0 : in_dims - 1, 1>));
         }
         else
         {
-            return get_elements(self.first(), inindex, sh);
+            return get_elements(self.first(), inindex, axis_params_v<VecAxis + in_dims - dims, N>);
         }
     }
 };
-- 
2.43.0


From b1fb0e85db46c21098c7693449667131adec9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 32/52] fix: cubic and catmullrom applied their coefficients in
 reverse order

---
 include/kfr/math/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 180a4a3..4f80dd6 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -78,7 +78,7 @@ KFR_FUNCTION T cubic(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - x1 - a0;
     const T a2 = x2 - x0;
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 /**
@@ -93,7 +93,7 @@ KFR_FUNCTION T catmullrom(M mu, T x0, T x1, T x2, T x3)
     const T a1 = x0 - T(2.5) * x1 + T(2) * x2 - T(0.5) * x3;
     const T a2 = T(0.5) * (x2 - x0);
     const T a3 = x1;
-    return horner(mu, a0, a1, a2, a3);
+    return horner(mu, a3, a2, a1, a0);
 }
 
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From 49f2fc0d95070da802fe9c15db4d0f6bdb762a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 33/52] fix: fastcos modified its const argument and did not
 compile

---
 include/kfr/math/impl/sin_cos.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/kfr/math/impl/sin_cos.hpp b/include/kfr/math/impl/sin_cos.hpp
index 7065169..48e1dc6 100644
--- a/include/kfr/math/impl/sin_cos.hpp
+++ b/include/kfr/math/impl/sin_cos.hpp
@@ -215,9 +215,8 @@ KFR_INTRINSIC vec<T, N> fastsin(const vec<T, N>& x)
 template <typename T, size_t N, KFR_ENABLE_IF(is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> fastcos(const vec<T, N>& x)
 {
-    x += c_pi<T, 1, 2>;
-    x = select(x >= c_pi<T, 2>, x - c_pi<T, 2>, x);
-    return fastsin(x);
+    const vec<T, N> y = x + c_pi<T, 1, 2>;
+    return fastsin(select(y >= c_pi<T, 2>, y - c_pi<T, 2>, y));
 }
 
 template <typename T, size_t N, KFR_ENABLE_IF(N > 1 && is_f_class<T>)>
-- 
2.43.0


From be4b61634f6a3a155923a53a4181c609b8413933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 34/52] fix: tanh and coth of large arguments returned NaN

---
 include/kfr/math/impl/hyperbolic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/hyperbolic.hpp b/include/kfr/math/impl/hyperbolic.hpp
index bd1841d..64b05c6 100644
--- a/include/kfr/math/impl/hyperbolic.hpp
+++ b/include/kfr/math/impl/hyperbolic.hpp
@@ -56,14 +56,14 @@ template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> tanh(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a - 1) / (a + 1);
+    return select(a == constants<Tout>::infinity, Tout(1), (a - 1) / (a + 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
 KFR_INTRINSIC vec<Tout, N> coth(const vec<T, N>& x)
 {
     const vec<Tout, N> a = exp(2 * x);
-    return (a + 1) / (a - 1);
+    return select(a == constants<Tout>::infinity, Tout(1), (a + 1) / (a - 1));
 }
 
 template <typename T, size_t N, typename Tout = flt_type<T>>
-- 
2.43.0


From 4c99c3cab70619f56ad6c3a79caa097caff858b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 35/52] fix: exp of very large arguments returned zero

---
 include/kfr/math/impl/log_exp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 57109b8..e530de5 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -174,7 +174,8 @@ KFR_INTRINSIC vec<f32, N> exp(const vec<f32, N>& d)
     u = s * s * u + s + 1.0f;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f32>::neginfinity, 0.f, u);
+    u = select(d < -104.f, 0.f, u);
+    u = select(d > 100.f, constants<f32>::infinity, u);
 
     return u;
 }
@@ -215,7 +216,8 @@ KFR_INTRINSIC vec<f64, N> exp(const vec<f64, N>& d)
     u = s * s * u + s + 1.0;
     u = vldexpk(u, q);
 
-    u = select(d == constants<f64>::neginfinity, 0.0, u);
+    u = select(d < -1000.0, 0.0, u);
+    u = select(d > 1000.0, constants<f64>::infinity, u);
 
     return u;
 }
-- 
2.43.0


From c015e372c7a86ee4e236613f70557d373e109d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 36/52] fix: log of denormals returned NaN because of overflow
 of the scale

---
 include/kfr/math/impl/log_exp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index e530de5..e5b8ae7 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -65,8 +65,8 @@ KFR_INTRINSIC vec<f32, N> vldexpk(const vec<f32, N>& x, const vec<i32, N>& q)
     m                    = (((m + q) >> 6) - m) << 4;
     const vec<i32, N> qq = q - (m << 2);
     m                    = clamp(m + 0x7f, vec<i32, N>(0xff));
-    vec<f32, N> u        = pow4(bitcast<f32>(broadcastto<i32>(m) << 23));
-    return x * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
+    vec<f32, N> u        = bitcast<f32>(broadcastto<i32>(m) << 23);
+    return x * u * u * u * u * bitcast<f32>((broadcastto<i32>(qq + 0x7f)) << 23);
 }
 
 template <size_t N>
@@ -76,8 +76,8 @@ KFR_INTRINSIC vec<f64, N> vldexpk(const vec<f64, N>& x, const vec<i64, N>& q)
     m                    = (((m + q) >> 9) - m) << 7;
     const vec<i64, N> qq = q - (m << 2);
     m                    = clamp(m + 0x3ff, i64(0x7ff));
-    vec<f64, N> u        = pow4(bitcast<f64>(broadcastto<i64>(m) << 52));
-    return x * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
+    vec<f64, N> u        = bitcast<f64>(broadcastto<i64>(m) << 52);
+    return x * u * u * u * u * bitcast<f64>((broadcastto<i64>(qq + 0x3ff)) << 52);
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 9ffe2ee614e95951414e3a463f6b98cdad78084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 37/52] fix: log of infinity returned NaN and log of NaN
 returned -infinity

---
 include/kfr/math/impl/log_exp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index e5b8ae7..4e66b59 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -95,7 +95,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
     vec<f32, N> x  = (m - 1.0f) / (m + 1.0f);
     vec<f32, N> x2 = x * x;
 
-    vec<f32, N> sp = select(d < 0, constants<f32>::qnan, constants<f32>::neginfinity);
+    vec<f32, N> sp = select(d == 0, constants<f32>::neginfinity, constants<f32>::qnan);
 
     vec<f32, N> t;
     t = fmadd(0.2371599674224853515625f, x2, 0.285279005765914916992188f);
@@ -105,6 +105,7 @@ KFR_INTRINSIC vec<f32, N> log(const vec<f32, N>& d)
 
     x = x * t + c_log_2<f32> * broadcastto<f32>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f32>::infinity, d, x);
 
     return x;
 }
@@ -118,7 +119,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
     vec<f64, N> x  = (m - 1.0) / (m + 1.0);
     vec<f64, N> x2 = x * x;
 
-    vec<f64, N> sp = select(d < 0, constants<f64>::qnan, constants<f64>::neginfinity);
+    vec<f64, N> sp = select(d == 0, constants<f64>::neginfinity, constants<f64>::qnan);
 
     vec<f64, N> t;
     t = fmadd(0.148197055177935105296783, x2, 0.153108178020442575739679);
@@ -131,6 +132,7 @@ KFR_INTRINSIC vec<f64, N> log(const vec<f64, N>& d)
 
     x = x * t + constants<f64>::log_2 * broadcastto<f64>(e);
     x = select(d > 0, x, sp);
+    x = select(d == constants<f64>::infinity, d, x);
 
     return x;
 }
-- 
2.43.0


From ac01fc805fa56e144ffdcbf044d632f6c449d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 38/52] fix: pow of zero returned zero for zero and negative
 exponents

---
 include/kfr/math/impl/log_exp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/math/impl/log_exp.hpp b/include/kfr/math/impl/log_exp.hpp
index 4e66b59..41f17be 100644
--- a/include/kfr/math/impl/log_exp.hpp
+++ b/include/kfr/math/impl/log_exp.hpp
@@ -241,8 +241,8 @@ KFR_INTRINSIC vec<T, N> pow(const vec<T, N>& a, const vec<T, N>& b)
     const mask<T, N> isint  = floor(b) == b;
     const mask<T, N> iseven = (broadcastto<itype<T>>(b) & 1) == 0;
     return select(
-        a > T(), t,
-        select(a == T(), T(), select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan))));
+        b == T(), T(1),
+        select(a >= T(), t, select(isint, select(iseven, t, -t), broadcast<N>(constants<T>::qnan))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From c93664df69906be908772866ca4629595cd3f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 39/52] fix: atan2 of infinite and negative arguments

---
 include/kfr/math/impl/atan.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/math/impl/atan.hpp b/include/kfr/math/impl/atan.hpp
index 9a783b4..9e8e562 100644
--- a/include/kfr/math/impl/atan.hpp
+++ b/include/kfr/math/impl/atan.hpp
@@ -111,8 +111,8 @@ KFR_INTRINSIC vec<f32, N> atan2(const vec<f32, N>& y, const vec<f32, N>& x)
     constexpr f32 pi_over_2 = 1.5707963267948966192313216916398f;
     constexpr f32 pi_over_4 = 0.78539816339744830961566084581988f;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0f), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0f), r);
+    r = select(isinf(x) || x == 0.0f, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0f), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0f), r);
     r = select(y == 0.0f, select(x < 0.f, pi, 0.f), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
@@ -126,8 +126,8 @@ KFR_INTRINSIC vec<f64, N> atan2(const vec<f64, N>& y, const vec<f64, N>& x)
     constexpr f64 pi_over_2 = 1.5707963267948966192313216916398;
     constexpr f64 pi_over_4 = 0.78539816339744830961566084581988;
     r                       = mulsign(r, x);
-    r = select(isinf(x) || x == 0.0, pi_over_2 - select(x.asmask(), mulsign(pi_over_2, x), 0.0), r);
-    r = select(isinf(y), pi_over_2 - select(x.asmask(), mulsign(pi_over_4, x), 0.0), r);
+    r = select(isinf(x) || x == 0.0, pi_over_2 - select(isinf(x), mulsign(pi_over_2, x), 0.0), r);
+    r = select(isinf(y), pi_over_2 - select(isinf(x), mulsign(pi_over_4, x), 0.0), r);
     r = select(y == 0.0, select(x < 0., pi, 0.), r);
     r = (isnan(x) || isnan(y)).asvec() | mulsign(r, y);
     return r;
-- 
2.43.0


From 29c02c77994932a334c5ab210f39db781c60146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 40/52] fix: modzerobessel of float arguments above 18
 overflowed

---
 include/kfr/math/impl/modzerobessel.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index ec462b6..569f32a 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -83,15 +83,15 @@ KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
 
     const vec<T, N> x_2     = x * 0.5;
     const vec<T, N> x_2_sqr = x_2 * x_2;
-    vec<T, N> num           = x_2_sqr;
-    vec<T, N> result;
-    result = 1 + x_2_sqr;
+    constexpr size_t count  = sizeof(T) == 4 ? 20 : 39;
+    vec<T, N> result        = bessel_coef[count - 1];
 
     CMT_LOOP_UNROLL
-    for (size_t i = 0; i < (sizeof(T) == 4 ? 20 : 39); i++)
+    for (size_t i = count - 1; i > 0; i--)
     {
-        result = fmadd((num *= x_2_sqr), bessel_coef[i], result);
+        result = fmadd(result, x_2_sqr, bessel_coef[i - 1]);
     }
+    result = fmadd(result * x_2_sqr, x_2_sqr, 1 + x_2_sqr);
     return result;
 }
 
-- 
2.43.0


From d918713cf30ace87dd2612fca9b14ce69463ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 41/52] fix: asin, acos, gamma, factorial_approx and
 modzerobessel of integers were computed in integers

---
 include/kfr/math/impl/asin_acos.hpp     | 4 ++--
 include/kfr/math/impl/gamma.hpp         | 4 ++--
 include/kfr/math/impl/modzerobessel.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/kfr/math/impl/asin_acos.hpp b/include/kfr/math/impl/asin_acos.hpp
index bc9b2cc..5031ef1 100644
--- a/include/kfr/math/impl/asin_acos.hpp
+++ b/include/kfr/math/impl/asin_acos.hpp
@@ -48,8 +48,8 @@ KFR_INTRINSIC vec<Tout, N> acos(const vec<T, N>& x)
     const vec<Tout, N> xx = x;
     return atan2(sqrt(Tout(1) - xx * xx), xx);
 }
-KFR_HANDLE_SCALAR(asin)
-KFR_HANDLE_SCALAR(acos)
+KFR_HANDLE_SCALAR_1_T(asin, flt_type<T>)
+KFR_HANDLE_SCALAR_1_T(acos, flt_type<T>)
 } // namespace intrinsics
 KFR_I_FN(asin)
 KFR_I_FN(acos)
diff --git a/include/kfr/math/impl/gamma.hpp b/include/kfr/math/impl/gamma.hpp
index 53220a8..77ce1f8 100644
--- a/include/kfr/math/impl/gamma.hpp
+++ b/include/kfr/math/impl/gamma.hpp
@@ -60,8 +60,8 @@ KFR_INTRINSIC vec<T, N> factorial_approx(const vec<T, N>& x)
 {
     return gamma(x + T(1));
 }
-KFR_HANDLE_SCALAR(gamma)
-KFR_HANDLE_SCALAR(factorial_approx)
+KFR_HANDLE_SCALAR_1_T(gamma, flt_type<T>)
+KFR_HANDLE_SCALAR_1_T(factorial_approx, flt_type<T>)
 } // namespace intrinsics
 KFR_I_FN(gamma)
 KFR_I_FN(factorial_approx)
diff --git a/include/kfr/math/impl/modzerobessel.hpp b/include/kfr/math/impl/modzerobessel.hpp
index 569f32a..39a2868 100644
--- a/include/kfr/math/impl/modzerobessel.hpp
+++ b/include/kfr/math/impl/modzerobessel.hpp
@@ -95,7 +95,7 @@ KFR_INTRINSIC vec<T, N> modzerobessel(const vec<T, N>& x)
     return result;
 }
 
-KFR_HANDLE_SCALAR(modzerobessel)
+KFR_HANDLE_SCALAR_1_T(modzerobessel, flt_type<T>)
 } // namespace intrinsics
 KFR_I_FN(modzerobessel)
 } // namespace CMT_ARCH_NAME
-- 
2.43.0


From c43ed4819e30ab63172b74b811bcaab87d379e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 42/52] fix: assignment to an element of a vector of padded
 vectors wrote to the wrong place

---
 include/kfr/simd/vec.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/simd/vec.hpp b/include/kfr/simd/vec.hpp
index 3e361f3..3a1ce23 100644
--- a/include/kfr/simd/vec.hpp
+++ b/include/kfr/simd/vec.hpp
@@ -495,10 +495,10 @@ struct alignas(internal::vec_alignment<T, N_>) vec
         union
         {
             simd_type v;
-            T s[N];
+            ST s[SN];
         } u{ this->v };
-        u.s[index] = s;
-        this->v    = u.v;
+        memcpy(&u.s[index * (SN / N)], &s, sizeof(ST) * (SN / N));
+        this->v = u.v;
     }
 
     template <size_t index, KFR_ENABLE_IF(index < 1024 && compound_type_traits<T>::is_scalar)>
-- 
2.43.0


From 3891940bd823451353d1f7fe14bce310d44c88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 43/52] fix: rounding of out-of-range values known at compile
 time gave undefined results with SSE2

---
 include/kfr/simd/impl/round.hpp | 42 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/kfr/simd/impl/round.hpp b/include/kfr/simd/impl/round.hpp
index e153636..85bfd3b 100644
--- a/include/kfr/simd/impl/round.hpp
+++ b/include/kfr/simd/impl/round.hpp
@@ -137,51 +137,65 @@ constexpr inline T fp_precision_limit = 4503599627370496.0;
 template <>
 constexpr inline f32 fp_precision_limit<f32> = 8388608.0f;
 
+// Values that cannot be converted to an integer (large, infinite, NaN) are replaced with zero: the result of
+// such conversion is undefined, even if it isn't used
+template <typename T, size_t N>
+KFR_INTRINSIC vec<T, N> trunc_in_range(const vec<T, N>& x, const mask<T, N>& in_range)
+{
+    return broadcastto<T>(broadcastto<itype<T>>(select(in_range, x, T(0))));
+}
+
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> floor(const vec<f32, N>& x)
 {
-    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) < fp_precision_limit<f32>, t - select(x < t, 1.f, 0.f), x);
+    const mask<f32, N> in_range = abs(x) < fp_precision_limit<f32>;
+    const vec<f32, N> t         = trunc_in_range(x, in_range);
+    return select(in_range, t - select(x < t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> floor(const vec<f64, N>& x)
 {
-    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) < fp_precision_limit<f64>, t - select(x < t, 1., 0.), x);
+    const mask<f64, N> in_range = abs(x) < fp_precision_limit<f64>;
+    const vec<f64, N> t         = trunc_in_range(x, in_range);
+    return select(in_range, t - select(x < t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> ceil(const vec<f32, N>& x)
 {
-    vec<f32, N> t = broadcastto<f32>(broadcastto<i32>(x));
-    return select(abs(x) < fp_precision_limit<f32>, t + select(x > t, 1.f, 0.f), x);
+    const mask<f32, N> in_range = abs(x) < fp_precision_limit<f32>;
+    const vec<f32, N> t         = trunc_in_range(x, in_range);
+    return select(in_range, t + select(x > t, 1.f, 0.f), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> ceil(const vec<f64, N>& x)
 {
-    vec<f64, N> t = broadcastto<f64>(broadcastto<i64>(x));
-    return select(abs(x) < fp_precision_limit<f64>, t + select(x > t, 1., 0.), x);
+    const mask<f64, N> in_range = abs(x) < fp_precision_limit<f64>;
+    const vec<f64, N> t         = trunc_in_range(x, in_range);
+    return select(in_range, t + select(x > t, 1., 0.), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> round(const vec<f32, N>& x)
 {
-    return select(abs(x) < fp_precision_limit<f32>,
-                  broadcastto<f32>(broadcastto<i32>(x + mulsign(broadcast<N>(0.49999997f), x))), x);
+    const mask<f32, N> in_range = abs(x) < fp_precision_limit<f32>;
+    return select(in_range, trunc_in_range(x + mulsign(broadcast<N>(0.49999997f), x), in_range), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> round(const vec<f64, N>& x)
 {
-    return select(abs(x) < fp_precision_limit<f64>,
-                  broadcastto<f64>(broadcastto<i64>(x + mulsign(broadcast<N>(0.49999999999999994), x))), x);
+    const mask<f64, N> in_range = abs(x) < fp_precision_limit<f64>;
+    return select(in_range, trunc_in_range(x + mulsign(broadcast<N>(0.49999999999999994), x), in_range), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> trunc(const vec<f32, N>& x)
 {
-    return select(abs(x) < fp_precision_limit<f32>, broadcastto<f32>(broadcastto<i32>(x)), x);
+    const mask<f32, N> in_range = abs(x) < fp_precision_limit<f32>;
+    return select(in_range, trunc_in_range(x, in_range), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f64, N> trunc(const vec<f64, N>& x)
 {
-    return select(abs(x) < fp_precision_limit<f64>, broadcastto<f64>(broadcastto<i64>(x)), x);
+    const mask<f64, N> in_range = abs(x) < fp_precision_limit<f64>;
+    return select(in_range, trunc_in_range(x, in_range), x);
 }
 template <size_t N>
 KFR_INTRINSIC vec<f32, N> fract(const vec<f32, N>& x)
-- 
2.43.0


From f2afc7477dcfb3d616f7d45651b1a77659b5d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 44/52] fix: cartesian multiplied complex numbers instead of
 components

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..7ae740e 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 4c4768895bef9dd1feb717e3167685f37fa78a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 45/52] fix: nearest did not compile for scalars

---
 include/kfr/math/interpolation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/interpolation.hpp b/include/kfr/math/interpolation.hpp
index 4f80dd6..97ca28a 100644
--- a/include/kfr/math/interpolation.hpp
+++ b/include/kfr/math/interpolation.hpp
@@ -41,7 +41,7 @@ inline namespace CMT_ARCH_NAME
 template <typename T, typename M>
 KFR_FUNCTION T nearest(M mu, T x1, T x2)
 {
-    return select(mu < M(0.5), x1, x2);
+    return intrinsics::select(mu < M(0.5), x1, x2);
 }
 
 /**
-- 
2.43.0


From bfc8ae023d5a4a0ba8445545276af117e7f37aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 46/52] fix: csqrt of zero returned NaN

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index 7ae740e..e767752 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s == T(0), T(0), abs(imag(x)) * 0.5 / s);
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From 135acee2c12fac9ac1e6e5b4d44a993836851314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:53 +0000
Subject: [PATCH 47/52] fix: gen_random_uniform did not compile

---
 include/kfr/base/random.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 72295a8..00d708c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -154,7 +154,7 @@ struct expression_random_uniform : expression_traits_defaults
     friend KFR_INTRINSIC vec<T, N> get_elements(const expression_random_uniform& self, shape<Dims>,
                                                 axis_params<VecAxis, N>)
     {
-        return random_uniform<N, T>(*self.state);
+        return random_uniform<T, N>(*self.state);
     }
 };
 
@@ -218,7 +218,7 @@ KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform(const random_
  * Use std::ref(gen) to use this overload.
  */
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
+KFR_FUNCTION expression_random_uniform<T, Dims, true> gen_random_uniform(
     std::reference_wrapper<random_state> state)
 {
     return { {}, state };
@@ -227,9 +227,9 @@ KFR_FUNCTION expression_random_range<T, Dims, true> gen_random_uniform(
 #ifndef KFR_DISABLE_READCYCLECOUNTER
 /// @brief Returns expression that produces uniform pseudorandom values using cycle counter entropy.
 template <typename T, index_t Dims = 1>
-KFR_FUNCTION expression_random_range<T, Dims> gen_random_uniform()
+KFR_FUNCTION expression_random_uniform<T, Dims> gen_random_uniform()
 {
-    return expression_random_uniform<T, Dims>{ random_init() };
+    return { {}, random_init() };
 }
 #endif
 
-- 
2.43.0


From 194ae806df0a096922d56b8377face0d4378053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:53 +0000
Subject: [PATCH 48/52] fix: random_range of integers did not compile or
 ignored min

---
 include/kfr/base/random.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index 00d708c..e9ed84c 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -104,11 +104,14 @@ KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 template <size_t N, typename T, KFR_ENABLE_IF(!is_f_class<T>)>
 KFR_INTRINSIC vec<T, N> random_range(random_state& state, T min, T max)
 {
-    using big_type = findinttype<sqr(std::numeric_limits<T>::min()), sqr(std::numeric_limits<T>::max())>;
-
-    vec<T, N> u                = random_uniform<T, N>(state);
-    const vec<big_type, N> tmp = u;
-    return (tmp * (max - min) + min) >> typebits<T>::bits;
+    static_assert(sizeof(T) <= 4, "random_range: 64-bit integers are not supported");
+    using UT       = utype<T>;
+    using big_type = std::conditional_t<(sizeof(T) > 2), u64, u32>;
+
+    const UT range             = static_cast<UT>(static_cast<UT>(max) - static_cast<UT>(min));
+    const vec<big_type, N> tmp = broadcastto<big_type>(random_uniform<UT, N>(state));
+    const vec<UT, N> scaled    = broadcastto<UT>((tmp * big_type(range)) >> typebits<T>::bits);
+    return bitcast<T>(scaled + static_cast<UT>(min));
 }
 
 /**
-- 
2.43.0


From 290ddefea89c9fb670c891200eab422b06609058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:53 +0000
Subject: [PATCH 49/52] fix: random_normal was infinite or NaN for a zero
 uniform value

---
 include/kfr/base/random.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/random.hpp b/include/kfr/base/random.hpp
index e9ed84c..727bd87 100644
--- a/include/kfr/base/random.hpp
+++ b/include/kfr/base/random.hpp
@@ -135,7 +135,8 @@ KFR_INTRINSIC vec<T, N> random_normal(random_state& state, T mu, T sigma)
 
     vec<T, M> u = random_uniform<T, M>(state);
 
-    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(even(u)));
+    // the uniform values are in [0, 1), the logarithm needs (0, 1]
+    vec<T, M / 2> mag = sigma * sqrt(T(-2.0) * log(T(1) - even(u)));
     vec<T, M> z       = dup(mag) * cossin(c_pi<T, 2> * dupodd(u)) + mu;
     return slice<0, N>(z);
 }
-- 
2.43.0


From 9e1b5a571c6c7b6ea0f3b60e449f2f0c4df53ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:06 +0000
Subject: [PATCH 50/52] fix: gcd with a zero argument divided by zero

---
 include/kfr/cometa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index 70b7b06..8e9b1d1 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -948,7 +948,7 @@ constexpr CMT_INTRINSIC T gcd(T a)
 template <typename T>
 constexpr inline T gcd(T a, T b)
 {
-    return a < b ? gcd(b, a) : ((a % b == 0) ? b : gcd(b, a % b));
+    return b == 0 ? a : gcd(b, static_cast<T>(a % b));
 }
 
 /// @brief Greatest common divisor
-- 
2.43.0


From 270eec52288db56c1d1277a7bf366bd63c7c72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:06 +0000
Subject: [PATCH 51/52] fix: small_buffer::push_back of its own element read
 freed memory

---
 include/kfr/base/small_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfr/base/small_buffer.hpp b/include/kfr/base/small_buffer.hpp
index 4633774..089709e 100644
--- a/include/kfr/base/small_buffer.hpp
+++ b/include/kfr/base/small_buffer.hpp
@@ -106,8 +106,9 @@ public:
     const T& operator[](std::size_t i) const { return m_data[i]; }
     void push_back(const T& value)
     {
+        T copy = value; // value may be an element of this buffer
         resize(m_size + 1);
-        m_data[m_size - 1] = value;
+        m_data[m_size - 1] = std::move(copy);
     }
 
 protected:
-- 
2.43.0


From fb82ca169bdf9395d7eaf4e823c60481afde04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:06 +0000
Subject: [PATCH 52/52] fix: inline_vector comparison ignored the sizes

---
 include/kfr/base/inline_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/inline_vector.hpp b/include/kfr/base/inline_vector.hpp
index b559c2f..9be468c 100644
--- a/include/kfr/base/inline_vector.hpp
+++ b/include/kfr/base/inline_vector.hpp
@@ -121,7 +121,7 @@ struct inline_vector
 
     constexpr bool operator==(const inline_vector& other) const
     {
-        return std::equal(begin(), end(), other.begin());
+        return std::equal(begin(), end(), other.begin(), other.end());
     }
     constexpr bool operator!=(const inline_vector& other) const { return !operator==(other); }
 
-- 
2.43.0

