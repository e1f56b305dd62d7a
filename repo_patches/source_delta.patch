From 5d8fcb0faa9d1783b42db428175a3264669cfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 01/64] fix: SSE float_v/double_v operator>= is false for NaN
 operands

_mm_cmpnlt_* is 'not less than', which is true for unordered operands.
---
 Vc/sse/vector.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 2e2fe5d..d857ca1 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -91,8 +91,8 @@ Vc_INTRINSIC SSE::ushort_m operator< (SSE::ushort_v a, SSE::ushort_v b) {
 #endif
 }
 
-Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpnlt_pd(a.data(), b.data()); }
-Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpnlt_ps(a.data(), b.data()); }
+Vc_INTRINSIC SSE::double_m operator>=(SSE::double_v a, SSE::double_v b) { return _mm_cmpge_pd(a.data(), b.data()); }
+Vc_INTRINSIC SSE:: float_m operator>=(SSE:: float_v a, SSE:: float_v b) { return _mm_cmpge_ps(a.data(), b.data()); }
 Vc_INTRINSIC SSE::   int_m operator>=(SSE::   int_v a, SSE::   int_v b) { return !(a < b); }
 Vc_INTRINSIC SSE::  uint_m operator>=(SSE::  uint_v a, SSE::  uint_v b) { return !(a < b); }
 Vc_INTRINSIC SSE:: short_m operator>=(SSE:: short_v a, SSE:: short_v b) { return !(a < b); }
-- 
2.43.0


From 7d27c43552b41fd60fbf0ffc0f10866828427930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 02/64] fix: SimdMaskArray::Zero() and One() of multi-register
 masks compile

The brace initialisation tried to pass the two halves to an explicit
special-initializer constructor.
---
 Vc/common/simdmaskarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index c2b6899..1666cfb 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -437,12 +437,12 @@ public:
     ///\copydoc Mask::Zero()
     Vc_INTRINSIC static fixed_size_simd_mask<T, N> Zero()
     {
-        return {storage_type0::Zero(), storage_type1::Zero()};
+        return SimdMaskArray(Vc::Zero);
     }
     ///\copydoc Mask::One()
     Vc_INTRINSIC static fixed_size_simd_mask<T, N> One()
     {
-        return {storage_type0::One(), storage_type1::One()};
+        return SimdMaskArray(Vc::One);
     }
 
     ///\name Loads & Stores
-- 
2.43.0


From 6d6075d8af5ee12c9f987c883403fd62c80de44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 03/64] fix: AVX float/double > and >= are false for NaN
 operands with clang

The path without builtin vector types used the unordered predicates
not-less-than and not-less-equal.
---
 Vc/avx/intrinsics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/intrinsics.h b/Vc/avx/intrinsics.h
index 492e6b0..2122929 100644
--- a/Vc/avx/intrinsics.h
+++ b/Vc/avx/intrinsics.h
@@ -180,16 +180,16 @@ namespace AvxIntrinsics
     Vc_INTRINSIC __m256d cmpeq_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256d cmpneq_pd  (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256d cmplt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256d cmpge_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256d cmple_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256d cmpgt_pd   (__m256d a, __m256d b) { return _mm256_cmp_pd(a, b, _CMP_GT_OS); }
 
     Vc_INTRINSIC __m256  cmpeq_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_EQ_OQ); }
     Vc_INTRINSIC __m256  cmpneq_ps  (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NEQ_UQ); }
     Vc_INTRINSIC __m256  cmplt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LT_OS); }
-    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLT_US); }
+    Vc_INTRINSIC __m256  cmpge_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GE_OS); }
     Vc_INTRINSIC __m256  cmple_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_LE_OS); }
-    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_NLE_US); }
+    Vc_INTRINSIC __m256  cmpgt_ps   (__m256  a, __m256  b) { return _mm256_cmp_ps(a, b, _CMP_GT_OS); }
 #endif
     Vc_INTRINSIC __m256d cmpnlt_pd  (__m256d a, __m256d b) { return cmpge_pd(a, b); }
     Vc_INTRINSIC __m256d cmpnle_pd  (__m256d a, __m256d b) { return cmpgt_pd(a, b); }
-- 
2.43.0


From 2d494a2d75b90d1268f8cae5050a992ac0329c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 04/64] fix: AVX float_v loads from unsigned round correctly

The load rounded twice for values above 2^31; use the conversion that
already handles this for casts.
---
 Vc/avx/detail.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 5802755..e7276eb 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -403,12 +403,7 @@ Vc_INTRINSIC __m256 load(const double *mem, Flags f, LoadTag<__m256, float>)
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const uint *mem, Flags f, LoadTag<__m256, float>)
 {
-    const auto v = load32(mem, f);
-    return _mm256_blendv_ps(
-        _mm256_cvtepi32_ps(v),
-        _mm256_add_ps(_mm256_cvtepi32_ps(AVX::sub_epi32(v, AVX::set2power31_epu32())),
-                      AVX::set2power31_ps()),
-        _mm256_castsi256_ps(AVX::cmplt_epi32(v, _mm256_setzero_si256())));
+    return AVX::convert<uint, float>(load32(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256 load(const int *mem, Flags f, LoadTag<__m256, float>)
-- 
2.43.0


From 315f866474cf8eec8eb2e7cfb99f4ae1bab296b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 05/64] fix: AVX double_v loads from 8- and 16-bit integers
 read and convert them

They loaded 16 bytes and reinterpreted them as 32-bit integers: wrong
values and a read past the source array.
---
 Vc/avx/detail.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index e7276eb..4a9044b 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -375,22 +375,22 @@ Vc_INTRINSIC __m256d load(const int *mem, Flags f, LoadTag<__m256d, double>)
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const ushort *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const short *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const uchar *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 template <typename Flags>
 Vc_INTRINSIC __m256d load(const schar *mem, Flags f, LoadTag<__m256d, double>)
 {
-    return AVX::convert<int, double>(load16(mem, f));
+    return AVX::convert<int, double>(load<__m128i, int>(mem, f));
 }
 
 // float {{{2
-- 
2.43.0


From 8be36f6db195d73049160561df8db6bf95c9e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 06/64] fix: AVX2 gathers of 8- and 16-bit elements do not read
 past the element

The 32-bit hardware gather read up to three bytes behind the last element
of the array. Use the element-wise gather instead.
---
 Vc/avx/vector.h | 56 -------------------------------------------------
 Vc/sse/vector.h | 46 ----------------------------------------
 2 files changed, 102 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index e07d4ca..8afaa6b 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -224,62 +224,6 @@ public:
                     .data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx0)),
-                                      int_v(AVX::gather<sizeof(MT) * Scale>(
-                                          aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    *this = (simd_cast<Signed>(*this) << 8) >> 8;  // sign extend
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            const auto idx0 = simd_cast<int_v, 0>(args.indexes).data();
-            const auto idx1 = simd_cast<int_v, 1>(args.indexes).data();
-            const auto k0 = simd_cast<AVX2::int_m, 0>(k).data();
-            const auto k1 = simd_cast<AVX2::int_m, 1>(k).data();
-            auto v = simd_cast<Vector>(
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k0, aliasing_cast<int>(args.address), idx0)),
-                int_v(AVX::gather<sizeof(MT) * Scale>(
-                    _mm256_setzero_si256(), k1, aliasing_cast<int>(args.address), idx1)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    using Signed = AVX2::Vector<typename std::make_signed<T>::type>;
-                    v = (simd_cast<Signed>(v) << 8) >> 8;  // sign extend
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
-
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
         template <class MT, class U, class A, int Scale>
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 6af4a03..3ebfdf8 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -176,52 +176,6 @@ template <typename T> class Vector<T, VectorAbi::Sse>
                 simd_cast<SSE::int_v>(args.indexes).data());
         }
 
-        ////////////////////////////////////////////////////////////////////////////////
-        // converting (from 8-bit and 16-bit integers only) epi16 gather emulation via
-        // epi32 gathers
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args)
-        {
-            using AVX2::int_v;
-            const auto idx = simd_cast<int_v>(args.indexes).data();
-            *this = simd_cast<Vector>(int_v(
-                AVX::gather<sizeof(MT) * Scale>(aliasing_cast<int>(args.address), idx)));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    d.v() = _mm_srai_epi16(_mm_slli_epi16(d.v(), 8), 8);
-                } else {
-                    *this &= 0xff;
-                }
-            }
-        }
-
-        // masked overload
-        template <
-            class MT, class U, class A, int Scale,
-            class = enable_if<(sizeof(T) == 2 && std::is_integral<MT>::value &&
-                               (sizeof(MT) <= 2) && Vector<U, A>::size() >= size())>>
-        Vc_INTRINSIC void gatherImplementation(
-            const Common::GatherArguments<MT, Vector<U, A>, Scale> &args, MaskArgument k)
-        {
-            using AVX2::int_v;
-            auto v = simd_cast<Vector>(int_v(AVX::gather<sizeof(MT) * Scale>(
-                _mm256_setzero_si256(), simd_cast<AVX2::int_m>(k).data(),
-                aliasing_cast<int>(args.address),
-                simd_cast<int_v>(args.indexes).data())));
-            if (sizeof(MT) == 1) {
-                if (std::is_signed<MT>::value) {
-                    v.data() = _mm_srai_epi16(_mm_slli_epi16(v.data(), 8), 8);
-                } else {
-                    v &= 0xff;
-                }
-            }
-            assign(v, k);
-        }
-
         ////////////////////////////////////////////////////////////////////////////////
         // all remaining converting gathers
         template <class MT, class U, class A, int Scale>
-- 
2.43.0


From 0841538124e9728f55aebebf03155d10dccd69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 07/64] fix: masked scatter with Vc_USE_SET_GATHERS scatters

It gathered from the destination into the (const) source vector, which
does not even compile.
---
 Vc/common/scatterimplementation.h | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/Vc/common/scatterimplementation.h b/Vc/common/scatterimplementation.h
index 82d9f84..e300558 100644
--- a/Vc/common/scatterimplementation.h
+++ b/Vc/common/scatterimplementation.h
@@ -36,19 +36,6 @@ namespace Vc_VERSIONED_NAMESPACE
 namespace Common
 {
 
-template <typename V, typename MT, typename IT>
-Vc_ALWAYS_INLINE void executeScatter(SetIndexZeroT,
-                                    V &v,
-                                    MT *mem,
-                                    IT indexes,
-                                    typename V::MaskArgument mask)
-{
-    indexes.setZeroInverted(static_cast<typename IT::Mask>(mask));
-    // Huh?
-    const V tmp(mem, indexes);
-    where(mask) | v = tmp;
-}
-
 template <typename V, typename MT, typename IT>
 Vc_ALWAYS_INLINE void executeScatter(SimpleLoopT,
                                     V &v,
@@ -65,6 +52,18 @@ Vc_ALWAYS_INLINE void executeScatter(SimpleLoopT,
     });
 }
 
+// There is no harmless index to use for the masked-off entries of a scatter, therefore fall back to
+// the simple loop.
+template <typename V, typename MT, typename IT>
+Vc_ALWAYS_INLINE void executeScatter(SetIndexZeroT,
+                                    V &v,
+                                    MT *mem,
+                                    const IT &indexes,
+                                    typename V::MaskArgument mask)
+{
+    executeScatter(SimpleLoopT(), v, mem, indexes, mask);
+}
+
 template <typename V, typename MT, typename IT>
 Vc_ALWAYS_INLINE void executeScatter(BitScanLoopT,
                                     V &v,
-- 
2.43.0


From 652aacbb11c5e21e388cb35a6176c4ed019aa60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 08/64] fix: SSE2/SSSE3 conversion from double to unsigned

The blend mask of the two 64-bit comparisons was applied to 32-bit lanes,
so lane 1 was wrong unless both values were on the same side of 2^31.
---
 Vc/sse/casts.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/casts.h b/Vc/sse/casts.h
index 8df29df..66580c8 100644
--- a/Vc/sse/casts.h
+++ b/Vc/sse/casts.h
@@ -98,7 +98,9 @@ Vc_INTRINSIC __m128i convert(__m128d v, ConvertTag<double, uint  >) {
     return blendv_epi8(_mm_cvttpd_epi32(v),
                        _mm_xor_si128(_mm_cvttpd_epi32(_mm_sub_pd(v, _mm_set1_pd(0x80000000u))),
                                      _mm_cvtsi64_si128(0x8000000080000000ull)),
-                       _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))));
+                       _mm_shuffle_epi32(
+                           _mm_castpd_si128(_mm_cmpge_pd(v, _mm_set1_pd(0x80000000u))),
+                           _MM_SHUFFLE(3, 1, 2, 0)));
 #endif
 }
 Vc_INTRINSIC __m128i convert(__m128i v, ConvertTag<int   , uint  >) { return v; }
-- 
2.43.0


From 5e0b5c888f78de120beb6989e6d270203aaedfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 09/64] fix: SSE Mem::permute of double vectors encodes the
 second index

The immediate of _mm_shuffle_pd has one bit per result, thus
SSE::double_v::broadcast<1>() returned [x1, x0].
---
 Vc/sse/shuffle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/sse/shuffle.h b/Vc/sse/shuffle.h
index 6652766..6318a97 100644
--- a/Vc/sse/shuffle.h
+++ b/Vc/sse/shuffle.h
@@ -106,7 +106,7 @@ namespace Mem
         template<VecPos Dst0, VecPos Dst1> static Vc_ALWAYS_INLINE Vc_CONST __m128d permute(__m128d x) {
             static_assert(Dst0 >= X0 && Dst1 >= X0, "Incorrect_Range");
             static_assert(Dst0 <= X1 && Dst1 <= X1, "Incorrect_Range");
-            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 4);
+            return _mm_shuffle_pd(x, x, Dst0 + Dst1 * 2);
         }
 
         template<VecPos Dst0, VecPos Dst1, VecPos Dst2, VecPos Dst3> static Vc_ALWAYS_INLINE __m128i Vc_CONST permute(__m128i x) {
-- 
2.43.0


From 66fc47d3bb4510747879fe595bb288040a048d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 10/64] fix: AVX double_v::broadcast<I>() compiles

---
 Vc/avx/vector.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 63d867d..12c74ff 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -931,7 +931,8 @@ template <> template <int Index> Vc_INTRINSIC AVX2::double_v AVX2::double_v::bro
 {
     constexpr VecPos Inner = static_cast<VecPos>(Index & 0x1);
     constexpr VecPos Outer = static_cast<VecPos>((Index & 0x2) / 2);
-    return Mem::permute<Inner, Inner>(Mem::permute128<Outer, Outer>(d.v()));
+    constexpr VecPos InnerHi = static_cast<VecPos>(Inner + X2);
+    return Mem::permute<Inner, Inner, InnerHi, InnerHi>(Mem::permute128<Outer, Outer>(d.v()));
 }
 // }}}1
 }  // namespace Vc
-- 
2.43.0


From cb2572d36cd8a85bcb56cfae7b6a9137964726bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:17 +0000
Subject: [PATCH 11/64] fix: SimdArray::shifted with unequal halves

For an N that is not a power of two the halves of a SimdArray have different
lengths. shifted(int) concatenates them through shifted(int, SimdArray<T, NN>),
which for negative amounts took the first instead of the last values of a
longer shiftIn and for positive amounts read beyond the end of a shorter one.
---
 Vc/common/simdarray.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 0434560..75f7e79 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -445,6 +445,21 @@ public:
     Vc_INTRINSIC fixed_size_simd<T, N> shifted(int amount, const SimdArray<value_type, NN> &shiftIn)
         const
     {
+        // When shifting up, the values to shift in are the last ones of shiftIn.
+        if (NN > N && amount < 0) {
+            if (amount <= -int(N)) {
+                return {private_init,
+                        simd_cast<VectorType>(shiftIn.shifted(amount + int(NN)))};
+            }
+            return {private_init,
+                    data.shifted(amount, simd_cast<VectorType>(
+                                             shiftIn.shifted(int(NN) - int(N))))};
+        }
+        if (NN < N && amount < 0) {
+            return {private_init,
+                    data.shifted(amount, simd_cast<VectorType>(shiftIn).shifted(
+                                             int(NN) - int(N)))};
+        }
         return {private_init, data.shifted(amount, simd_cast<VectorType>(shiftIn))};
     }
 
@@ -1172,8 +1187,8 @@ public:
                 i += amount;
                 if (i >= 0) {
                     return operator[](i);
-                } else if (i >= -SSize) {
-                    return shiftIn[i + SSize];
+                } else if (i >= -int(NN)) {
+                    return shiftIn[i + int(NN)];
                 }
                 return 0;
             });
@@ -1182,7 +1197,7 @@ public:
             i += amount;
             if (i < SSize) {
                 return operator[](i);
-            } else if (i < 2 * SSize) {
+            } else if (i < SSize + int(NN)) {
                 return shiftIn[i - SSize];
             }
             return 0;
@@ -1288,7 +1303,7 @@ public:
             return {data0.shifted(amount, d1cvtd), std::move(d0cvtd)};
         } else if (int(size()) - amount < size1) {
             return {data0.shifted(amount - int(size()), d1cvtd.shifted(size1 - size0)),
-                    data1.shifted(amount - int(size()), data0.shifted(size0 - size1))};
+                    data1.shifted(amount - int(size()), data0)};
         } else if (int(size()) - amount == size1) {
             return {data0.shifted(-size1, d1cvtd.shifted(size1 - size0)),
                     simd_cast<storage_type1>(data0.shifted(size0 - size1))};
-- 
2.43.0


From aa50173c8f96914735c3dd8cd343b7640f8345af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 12/64] fix: masked increment leaves deselected -0 alone

Adding zero turned negative zeros in lanes that are not selected into +0.
---
 Vc/common/writemaskedvector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/writemaskedvector.h b/Vc/common/writemaskedvector.h
index 09541fc..9f78e23 100644
--- a/Vc/common/writemaskedvector.h
+++ b/Vc/common/writemaskedvector.h
@@ -58,7 +58,8 @@ public:
     {
         V one = V::One();
         one.setZeroInverted(mask);
-        return vec += one;
+        vec.assign(vec + one, mask);  // adding zero is no no-op: it modifies -0.
+        return vec;
     }
     Vc_INTRINSIC V &operator--()
     {
-- 
2.43.0


From 4524ec1d15e0202af47f612fc4aafe19a00b5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 13/64] fix: masked min and max of floating-point vectors
 ignore deselected lanes

---
 Vc/avx/vector.tcc | 6 ++++--
 Vc/sse/vector.tcc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 12c74ff..60eb854 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -600,13 +600,15 @@ template<typename T> template<typename BinaryOperation> Vc_ALWAYS_INLINE AVX2::V
 
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::min(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::max();
+    typedef std::numeric_limits<T> Limits;
+    AVX2::Vector<T> tmp = T(Limits::has_infinity ? Limits::infinity() : Limits::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE typename Vector<T, VectorAbi::Avx>::EntryType Vector<T, VectorAbi::Avx>::max(MaskArgument m) const
 {
-    AVX2::Vector<T> tmp = std::numeric_limits<AVX2::Vector<T> >::min();
+    typedef std::numeric_limits<T> Limits;
+    AVX2::Vector<T> tmp = T(Limits::has_infinity ? -Limits::infinity() : Limits::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index d857ca1..716b0bc 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -425,13 +425,15 @@ template<> Vc_INTRINSIC Vc_PURE unsigned int SSE::uint_v::product() const
 #endif
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::min(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::max();
+    typedef std::numeric_limits<T> Limits;
+    Vector<T, VectorAbi::Sse> tmp = T(Limits::has_infinity ? Limits::infinity() : Limits::max());
     tmp(m) = *this;
     return tmp.min();
 }
 template<typename T> Vc_ALWAYS_INLINE Vc_PURE typename Vector<T, VectorAbi::Sse>::EntryType Vector<T, VectorAbi::Sse>::max(MaskArg m) const
 {
-    Vector<T, VectorAbi::Sse> tmp = std::numeric_limits<Vector<T, VectorAbi::Sse> >::min();
+    typedef std::numeric_limits<T> Limits;
+    Vector<T, VectorAbi::Sse> tmp = T(Limits::has_infinity ? -Limits::infinity() : Limits::lowest());
     tmp(m) = *this;
     return tmp.max();
 }
-- 
2.43.0


From b1bcc5be3a296d4f6d270246b7a6a7254779d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 14/64] fix: iterating where(mask) does not count the trailing
 zeros of zero

---
 Vc/common/iterators.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index 071482a..fe9ece4 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -161,7 +161,8 @@ template <typename V> using ConstIterator = Iterator<const V>;
         void nextBit()
         {
 #ifdef Vc_GNU_ASM
-            bit = __builtin_ctzl(mask);
+            // __builtin_ctzl(0) is undefined; bit is not used after the last set bit
+            bit = mask ? __builtin_ctzl(mask) : 0;
 #elif defined(Vc_MSVC)
             _BitScanForward(&bit, mask);
 #else
-- 
2.43.0


From b4aece21f876391860e0f54c7e096ad2f6eabc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 15/64] fix: scalar ushort_v multiplication does not overflow
 int

---
 Vc/scalar/operators.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/scalar/operators.h b/Vc/scalar/operators.h
index cf7ce14..4b1e6c3 100644
--- a/Vc/scalar/operators.h
+++ b/Vc/scalar/operators.h
@@ -81,7 +81,9 @@ Vc_INTRINSIC Scalar::Vector<T> operator-(Scalar::Vector<T> a, Scalar::Vector<T>
 template <typename T>
 Vc_INTRINSIC Scalar::Vector<T> operator*(Scalar::Vector<T> a, Scalar::Vector<T> b)
 {
-    return a.data() * b.data();
+    // unsigned short would promote to int, and the product can overflow int
+    using U = typename std::conditional<std::is_same<T, unsigned short>::value, unsigned int, T>::type;
+    return T(U(a.data()) * U(b.data()));
 }
 template <typename T>
 Vc_INTRINSIC Scalar::Vector<T> operator/(Scalar::Vector<T> a, Scalar::Vector<T> b)
-- 
2.43.0


From 3e4bd66de798fcdcce84f8d6e79a63ee505f1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 16/64] fix: product() of unsigned short simd arrays does not
 overflow int

---
 Vc/common/simdarray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 75f7e79..6b9573a 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -86,6 +86,11 @@ struct select_best_vector_type : select_best_vector_type_impl<N,
 namespace internal
 {
 template <typename T> T Vc_INTRINSIC Vc_PURE product_helper_(const T &l, const T &r) { return l * r; }
+// unsigned short would promote to int, and the product can overflow int
+Vc_INTRINSIC Vc_PURE unsigned short product_helper_(unsigned short l, unsigned short r)
+{
+    return static_cast<unsigned short>(static_cast<unsigned int>(l) * r);
+}
 template <typename T> T Vc_INTRINSIC Vc_PURE sum_helper_(const T &l, const T &r) { return l + r; }
 }  // namespace internal
 
-- 
2.43.0


From 485f87b9b027eab243f912fa7cbc1bf3aadb052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 17/64] fix: callWithValuesSorted must call the function in
 ascending order

---
 Vc/avx/vector.h | 7 ++++---
 Vc/sse/vector.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/Vc/avx/vector.h b/Vc/avx/vector.h
index 8afaa6b..8fe3b06 100644
--- a/Vc/avx/vector.h
+++ b/Vc/avx/vector.h
@@ -380,11 +380,12 @@ public:
 
         template <typename F> void callWithValuesSorted(F &&f)
         {
-            EntryType value = d.m(0);
+            const Vector v = sorted();
+            EntryType value = v.d.m(0);
             f(value);
             for (size_t i = 1; i < Size; ++i) {
-                if (d.m(i) != value) {
-                    value = d.m(i);
+                if (v.d.m(i) != value) {
+                    value = v.d.m(i);
                     f(value);
                 }
             }
diff --git a/Vc/sse/vector.h b/Vc/sse/vector.h
index 3ebfdf8..fdc8677 100644
--- a/Vc/sse/vector.h
+++ b/Vc/sse/vector.h
@@ -317,11 +317,12 @@ template <typename T> class Vector<T, VectorAbi::Sse>
 
         template <typename F> void callWithValuesSorted(F &&f)
         {
-            EntryType value = d.m(0);
+            const Vector v = sorted();
+            EntryType value = v.d.m(0);
             f(value);
             for (std::size_t i = 1; i < Size; ++i) {
-                if (d.m(i) != value) {
-                    value = d.m(i);
+                if (v.d.m(i) != value) {
+                    value = v.d.m(i);
                     f(value);
                 }
             }
-- 
2.43.0


From 54a1c88baa6abb8feb141c2d44d128ff0367a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:26 +0000
Subject: [PATCH 18/64] fix: scalar double_v::Random() must leave a state that
 the other implementations can use

---
 Vc/scalar/vector.tcc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Vc/scalar/vector.tcc b/Vc/scalar/vector.tcc
index 5acbd2a..d3cea8e 100644
--- a/Vc/scalar/vector.tcc
+++ b/Vc/scalar/vector.tcc
@@ -166,10 +166,9 @@ template<> Vc_INTRINSIC Scalar::double_v Scalar::double_v::Random()
 {
     typedef unsigned long long uint64 Vc_MAY_ALIAS;
     uint64 state0 = *reinterpret_cast<const uint64 *>(&Common::RandomState[8]);
-    state0 = (state0 * 0x5deece66dull + 11) & 0x000fffffffffffffull;
-    *reinterpret_cast<uint64 *>(&Common::RandomState[8]) = state0;
+    *reinterpret_cast<uint64 *>(&Common::RandomState[8]) = (state0 * 0x5deece66dull + 11);
     union { unsigned long long i; double f; } x;
-    x.i = state0 | 0x3ff0000000000000ull;
+    x.i = (state0 >> 12) | 0x3ff0000000000000ull;
     return Scalar::double_v(x.f - 1.);
 }
 // isnegative {{{1
-- 
2.43.0


From 2120034699fae6c8fbc7cad672ddcfc59813f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:49 +0000
Subject: [PATCH 19/64] fix: round() of values beyond the range of int, of -0
 and of values next to 0.5 (scalar and SSE2)

---
 Vc/scalar/math.h      | 13 ++-----------
 Vc/sse/vectorhelper.h | 12 ++++++++++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/Vc/scalar/math.h b/Vc/scalar/math.h
index 469a35f..a9afb40 100644
--- a/Vc/scalar/math.h
+++ b/Vc/scalar/math.h
@@ -184,23 +184,14 @@ template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> round(const Scala
     return x;
 }
 
-namespace
-{
-    template<typename T> bool _realIsEvenHalf(T x) {
-        const T two = 2;
-        const T half = 0.5;
-        const T f = std::floor(x * half) * two;
-        return (x - f) == half;
-    }
-} // namespace
 template<> Vc_ALWAYS_INLINE Scalar::Vector<float>  round(const Scalar::Vector<float>  &x)
 {
-    return Scalar::float_v(std::floor(x.data() + 0.5f) - (_realIsEvenHalf(x.data()) ? 1.f : 0.f));
+    return Scalar::float_v(std::nearbyint(x.data()));
 }
 
 template<> Vc_ALWAYS_INLINE Scalar::Vector<double> round(const Scalar::Vector<double> &x)
 {
-    return Scalar::double_v(std::floor(x.data() + 0.5 ) - (_realIsEvenHalf(x.data()) ? 1.  : 0. ));
+    return Scalar::double_v(std::nearbyint(x.data()));
 }
 
 template<typename T> static Vc_ALWAYS_INLINE Scalar::Vector<T> reciprocal(const Scalar::Vector<T> &x)
diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index 1b51646..ea62081 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -211,7 +211,11 @@ namespace SSE
                 return _mm_round_pd(a, _MM_FROUND_NINT);
 #else
                 //XXX: slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_pd(_mm_cvtpd_epi32(a));
+                // adding 2^52 drops the fractional bits; there are none in larger values
+                const VectorType magic = set(4503599627370496.);
+                const VectorType sign = _mm_and_pd(a, _mm_setsignmask_pd());
+                const VectorType rounded = _mm_or_pd(sub(add(abs(a), magic), magic), sign);
+                return blendv_pd(a, rounded, _mm_cmplt_pd(abs(a), magic));
 #endif
             }
         };
@@ -293,7 +297,11 @@ namespace SSE
                 return _mm_round_ps(a, _MM_FROUND_NINT);
 #else
                 //XXX slow: _MM_SET_ROUNDING_MODE(_MM_ROUND_NEAREST);
-                return _mm_cvtepi32_ps(_mm_cvtps_epi32(a));
+                // adding 2^23 drops the fractional bits; there are none in larger values
+                const VectorType magic = set(8388608.f);
+                const VectorType sign = _mm_and_ps(a, _mm_setsignmask_ps());
+                const VectorType rounded = _mm_or_ps(sub(add(abs(a), magic), magic), sign);
+                return blendv_ps(a, rounded, _mm_cmplt_ps(abs(a), magic));
 #endif
             }
         };
-- 
2.43.0


From b82b2c653d4b070f64892845e39102a0e5fa09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 20/64] fix: trunc(), floor() and ceil() of large doubles and
 of negative fractions below SSE4.1

---
 Vc/sse/math.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index ed399ce..34f0c23 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -118,7 +118,9 @@ inline SSE::float_v ceil(SSE::float_v::AsArg v) { return _mm_ceil_ps(v.data());
 #else
 inline SSE::Vector<float> trunc(SSE::Vector<float> x)
 {
-    const auto truncated = _mm_cvtepi32_ps(_mm_cvttps_epi32(x.data()));
+    // the conversion to int and back looses the sign of zero
+    const auto truncated = _mm_or_ps(_mm_cvtepi32_ps(_mm_cvttps_epi32(x.data())),
+                                     _mm_and_ps(x.data(), SSE::_mm_setsignmask_ps()));
     const auto no_fractional_values = _mm_castsi128_ps(_mm_cmplt_epi32(
         _mm_and_si128(_mm_castps_si128(x.data()), _mm_set1_epi32(0x7f800000u)),
         _mm_set1_epi32(0x4b000000)));  // the exponent is so large that no mantissa bits
@@ -139,9 +141,13 @@ inline SSE::Vector<double> trunc(SSE::Vector<double> x)
     truncated = _mm_sub_pd(truncated,
                            _mm_and_pd(_mm_cmplt_pd(abs_x, truncated), _mm_set1_pd(1.)));
     // finally, fix the sign bit:
-    return _mm_or_pd(
+    truncated = _mm_or_pd(
         _mm_and_pd(_mm_castsi128_pd(_mm_set1_epi64x(0x8000000000000000ull)), x.data()),
         truncated);
+    // larger values have no fractional bits, but adding 2^52 would round them
+    const auto has_fractional_bits = _mm_cmplt_pd(abs_x, min_no_fractional_bits);
+    return _mm_or_pd(_mm_andnot_pd(has_fractional_bits, x.data()),
+                     _mm_and_pd(has_fractional_bits, truncated));
 }
 
 template <typename T> inline SSE::Vector<T> floor(SSE::Vector<T> x)
-- 
2.43.0


From 8445a3e5aa391c835a5087602db822361bc15463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 21/64] fix: fma() of doubles without FMA instructions rounded
 intermediate results and turned infinities into NaN

---
 Vc/avx/detail.h       | 23 ++++++++---------------
 Vc/sse/vectorhelper.h | 23 ++++++-----------------
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index 4a9044b..b62a562 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -29,6 +29,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #define VC_AVX_DETAIL_H_
 
 #include "../sse/detail.h"
+#include <cmath>
 #include "macros.h"
 
 namespace Vc_VERSIONED_NAMESPACE
@@ -858,21 +859,13 @@ Vc_INTRINSIC __m256d fma(__m256d a, __m256d b, __m256d c, double)
 #elif defined Vc_IMPL_FMA
     return _mm256_fmadd_pd(a, b, c);
 #else
-    using namespace AVX;
-    __m256d h1 = and_(a, _mm256_broadcast_sd(reinterpret_cast<const double *>(
-                             &c_general::highMaskDouble)));
-    __m256d h2 = and_(b, _mm256_broadcast_sd(reinterpret_cast<const double *>(
-                             &c_general::highMaskDouble)));
-    const __m256d l1 = _mm256_sub_pd(a, h1);
-    const __m256d l2 = _mm256_sub_pd(b, h2);
-    const __m256d ll = mul(l1, l2, double());
-    const __m256d lh = add(mul(l1, h2, double()), mul(h1, l2, double()), double());
-    const __m256d hh = mul(h1, h2, double());
-    // ll < lh < hh for all entries is certain
-    const __m256d lh_lt_v3 = cmplt(abs(lh, double()), abs(c, double()), double());  // |lh| < |c|
-    const __m256d x = _mm256_blendv_pd(c, lh, lh_lt_v3);
-    const __m256d y = _mm256_blendv_pd(lh, c, lh_lt_v3);
-    return add(add(ll, x, double()), add(y, hh, double()), double());
+    // no vector instruction for it, and double has no wider type to compute in
+    alignas(32) double x[4], y[4], z[4];
+    _mm256_store_pd(x, a);
+    _mm256_store_pd(y, b);
+    _mm256_store_pd(z, c);
+    return _mm256_setr_pd(std::fma(x[0], y[0], z[0]), std::fma(x[1], y[1], z[1]),
+                          std::fma(x[2], y[2], z[2]), std::fma(x[3], y[3], z[3]));
 #endif
 }
 template <typename T> Vc_INTRINSIC __m256i fma(__m256i a, __m256i b, __m256i c, T)
diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index ea62081..ed967b5 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -30,6 +30,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "types.h"
 #include "../common/loadstoreflags.h"
+#include <cmath>
 #include <limits>
 #include "const_data.h"
 #include "macros.h"
@@ -146,23 +147,11 @@ namespace SSE
             }
 #else
             static inline void fma(VectorType &v1, VectorType v2, VectorType v3) {
-                VectorType h1 = _mm_and_pd(v1, _mm_load_pd(reinterpret_cast<const double *>(&c_general::highMaskDouble)));
-                VectorType h2 = _mm_and_pd(v2, _mm_load_pd(reinterpret_cast<const double *>(&c_general::highMaskDouble)));
-#if defined(Vc_GCC) && Vc_GCC < 0x40703
-                // GCC before 4.7.3 uses an incorrect optimization where it replaces the subtraction with an andnot
-                // http://gcc.gnu.org/bugzilla/show_bug.cgi?id=54703
-                asm("":"+x"(h1), "+x"(h2));
-#endif
-                const VectorType l1 = _mm_sub_pd(v1, h1);
-                const VectorType l2 = _mm_sub_pd(v2, h2);
-                const VectorType ll = mul(l1, l2);
-                const VectorType lh = add(mul(l1, h2), mul(h1, l2));
-                const VectorType hh = mul(h1, h2);
-                // ll < lh < hh for all entries is certain
-                const VectorType lh_lt_v3 = _mm_cmplt_pd(abs(lh), abs(v3)); // |lh| < |v3|
-                const VectorType b = blendv_pd(v3, lh, lh_lt_v3);
-                const VectorType c = blendv_pd(lh, v3, lh_lt_v3);
-                v1 = add(add(ll, b), add(c, hh));
+                // no vector instruction for it, and double has no wider type to compute in
+                const double hi = std::fma(_mm_cvtsd_f64(_mm_unpackhi_pd(v1, v1)),
+                                           _mm_cvtsd_f64(_mm_unpackhi_pd(v2, v2)),
+                                           _mm_cvtsd_f64(_mm_unpackhi_pd(v3, v3)));
+                v1 = set(hi, std::fma(_mm_cvtsd_f64(v1), _mm_cvtsd_f64(v2), _mm_cvtsd_f64(v3)));
             }
 #endif
 
-- 
2.43.0


From b61c07c824fecf035c16ba71e09f6d81da72c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 22/64] fix: frexp() of denormal numbers

---
 Vc/avx/math.h |  3 +++
 Vc/sse/math.h | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index d5f8491..2d4f660 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -173,6 +173,7 @@ inline AVX2::double_v frexp(AVX2::double_v::AsArg v, SimdArray<int, 4> *e)
     ret(isnan(v) || !isfinite(v) || zeroMask) = v;
     exponent.setZero(simd_cast<SSE::int_m>(zeroMask));
     internal_data(*e) = exponent;
+    Detail::frexpDenormals(AVX2::double_v(v), ret, *e);
     return ret;
 }
 
@@ -208,6 +209,7 @@ inline SimdArray<double, 8> frexp(const SimdArray<double, 8> &v, SimdArray<int,
     ret(isnan(v) || !isfinite(v) || zeroMask) = v;
     internal_data(*e) =
         Detail::andnot_(simd_cast<AVX2::int_m>(zeroMask).dataI(), exponent);
+    Detail::frexpDenormals(v, ret, *e);
     return ret;
 }
 #endif  // Vc_IMPL_AVX2
@@ -237,6 +239,7 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
     AVX2::float_v ret = _mm256_and_ps(exponentMaximized, avx_cast<__m256>(set1_epi32(0xbf7fffffu)));
     ret(isnan(v) || !isfinite(v) || v == AVX2::float_v::Zero()) = v;
     e->setZero(simd_cast<decltype(*e == *e)>(v == AVX2::float_v::Zero()));
+    frexpDenormals(AVX2::float_v(v), ret, *e);
     return ret;
 }
 
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index 34f0c23..bb0cf28 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -47,6 +47,26 @@ Vc_INTRINSIC Vc_CONST SSE::double_v copysign(SSE::double_v mag, SSE::double_v si
 
 //}}}1
 
+namespace Detail
+{
+// The bit operations in frexp require normalized numbers; this corrects the other lanes.
+template <class V, class F, class E>
+inline void frexpDenormals(const V &v, F &fraction, E &e)
+{
+    typedef typename V::EntryType T;
+    const auto denormal = abs(v) < V(std::numeric_limits<T>::min()) && v != V(T(0));
+    if (Vc_IS_UNLIKELY(denormal.isNotEmpty())) {
+        for (size_t i = 0; i < V::Size; ++i) {
+            if (denormal[i]) {
+                int n;
+                fraction[i] = std::frexp(T(v[i]), &n);
+                e[i] = n;
+            }
+        }
+    }
+}
+}  // namespace Detail
+
 /**
  * splits \p v into exponent and mantissa, the sign is kept with the mantissa
  *
@@ -69,6 +89,7 @@ inline SSE::double_v frexp(const SSE::double_v &v,
     exponent.setZero(zeroMask.data());
     (*e)[0] = exponent[0];
     (*e)[1] = exponent[2];
+    Detail::frexpDenormals(v, ret, *e);
     return ret;
 }
 inline SSE::float_v frexp(const SSE::float_v &v, SimdArray<int, 4, SSE::int_v, 4> *e)
@@ -82,6 +103,7 @@ inline SSE::float_v frexp(const SSE::float_v &v, SimdArray<int, 4, SSE::int_v, 4
         _mm_and_ps(exponentMaximized, _mm_castsi128_ps(_mm_set1_epi32(0xbf7fffffu)));
     ret(isnan(v) || !isfinite(v) || v == SSE::float_v::Zero()) = v;
     e->setZero(v == SSE::float_v::Zero());
+    Detail::frexpDenormals(v, ret, *e);
     return ret;
 }
 
-- 
2.43.0


From 036e67fad1cfa1d1161e6bd4aab52027caea5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 23/64] fix: ldexp() of non-finite or denormal numbers and of
 exponents that overflow or underflow

---
 Vc/avx/math.h |  6 ++++++
 Vc/sse/math.h | 25 +++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/Vc/avx/math.h b/Vc/avx/math.h
index 2d4f660..aea99c6 100644
--- a/Vc/avx/math.h
+++ b/Vc/avx/math.h
@@ -250,6 +250,9 @@ inline AVX2::float_v frexp(AVX2::float_v::AsArg v, SimdArray<int, 8> *e)
  */
 inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e)
 {
+    if (Vc_IS_UNLIKELY(!Detail::ldexpIsNormal(AVX2::double_v(v), _e))) {
+        return Detail::ldexpGeneral(AVX2::double_v(v), _e);
+    }
     SSE::int_v e = internal_data(_e);
     e.setZero(simd_cast<SSE::int_m>(v == AVX2::double_v::Zero()));
     const __m256i exponentBits =
@@ -260,6 +263,9 @@ inline AVX2::double_v ldexp(AVX2::double_v::AsArg v, const SimdArray<int, 4> &_e
 }
 inline AVX2::float_v ldexp(AVX2::float_v::AsArg v, SimdArray<int, 8> e)
 {
+    if (Vc_IS_UNLIKELY(!Detail::ldexpIsNormal(AVX2::float_v(v), e))) {
+        return Detail::ldexpGeneral(AVX2::float_v(v), e);
+    }
     e.setZero(simd_cast<decltype(e == e)>(v == AVX2::float_v::Zero()));
     e <<= 23;
 #ifdef Vc_IMPL_AVX2
diff --git a/Vc/sse/math.h b/Vc/sse/math.h
index bb0cf28..bf5a240 100644
--- a/Vc/sse/math.h
+++ b/Vc/sse/math.h
@@ -65,6 +65,25 @@ inline void frexpDenormals(const V &v, F &fraction, E &e)
         }
     }
 }
+
+// The bit operations in ldexp require that v and v * 2^e are normalized numbers or zero.
+template <class V, class E> inline bool ldexpIsNormal(const V &v, const E &e)
+{
+    typedef std::numeric_limits<typename V::EntryType> L;
+    const V a = abs(v);
+    const V x = V(exponent(a.data())) + simd_cast<V>(e);
+    return (a == V(0) || (a >= V((L::min)()) && a <= V((L::max)()) &&
+                          x >= V(L::min_exponent - 1) && x <= V(L::max_exponent - 1)))
+        .isFull();
+}
+template <class V, class E> inline V ldexpGeneral(const V &v, const E &e)
+{
+    V r = v;
+    for (size_t i = 0; i < V::Size; ++i) {
+        r[i] = std::ldexp(typename V::EntryType(v[i]), int(e[i]));
+    }
+    return r;
+}
 }  // namespace Detail
 
 /**
@@ -114,6 +133,9 @@ inline SSE::float_v frexp(const SSE::float_v &v, SimdArray<int, 4, SSE::int_v, 4
 inline SSE::double_v ldexp(SSE::double_v::AsArg v,
                            const SimdArray<int, 2, Scalar::int_v, 1> &_e)
 {
+    if (Vc_IS_UNLIKELY(!Detail::ldexpIsNormal(v, _e))) {
+        return Detail::ldexpGeneral(v, _e);
+    }
     SSE::int_v e = _mm_setr_epi32(_e[0], 0, _e[1], 0);
     e.setZero((v == SSE::double_v::Zero()).dataI());
     const __m128i exponentBits = _mm_slli_epi64(e.data(), 52);
@@ -122,6 +144,9 @@ inline SSE::double_v ldexp(SSE::double_v::AsArg v,
 inline SSE::float_v ldexp(SSE::float_v::AsArg v,
                           const SimdArray<int, 4, SSE::int_v, 4> &_e)
 {
+    if (Vc_IS_UNLIKELY(!Detail::ldexpIsNormal(v, _e))) {
+        return Detail::ldexpGeneral(v, _e);
+    }
     SSE::int_v e = internal_data(_e);
     e.setZero(simd_cast<SSE::int_m>(v == SSE::float_v::Zero()));
     return reinterpret_components_cast<SSE::float_v>(
-- 
2.43.0


From c3cd68cbb9fe3e4a82dba879a1b24135b27e27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 24/64] fix: exp() of doubles in ]708.4, 709.78] returned
 infinity

---
 Vc/common/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/math.h b/Vc/common/math.h
index b2e529b..a9ce705 100644
--- a/Vc/common/math.h
+++ b/Vc/common/math.h
@@ -61,7 +61,7 @@ inline AVX::double_v exp(AVX::double_v _x)
         typedef V::Mask M;
     typedef AVX::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
@@ -101,7 +101,7 @@ inline SSE::double_v exp(SSE::double_v::AsArg _x) {
         typedef V::Mask M;
     typedef SSE::Const<double> C;
 
-        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x0006232bdd7abcd2ull, 9>(); // max log
+        const M overflow  = x > Vc::Detail::doubleConstant< 1, 0x00062e42fefa39efull, 9>(); // max log
         const M underflow = x < Vc::Detail::doubleConstant<-1, 0x0006232bdd7abcd2ull, 9>(); // min log
 
         V px = floor(C::log2_e() * x + 0.5);
-- 
2.43.0


From 0318509c7375e8223868e081a0f7a8e465a868a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 25/64] fix: log(), log2() and log10() of NaN and infinity
 returned finite values

---
 Vc/common/logarithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/logarithm.h b/Vc/common/logarithm.h
index a4a7bf9..90fbd86 100644
--- a/Vc/common/logarithm.h
+++ b/Vc/common/logarithm.h
@@ -246,6 +246,7 @@ static inline Vector<T, Abi> calc(V _x)
 
         log_series(x, exponent); // A: (ˣ⁄₂ᵉ - 1, e)  B: (ˣ⁄₂ᵉ⁺¹ - 1, e + 1)
 
+        x(!isfinite(_x)) = _x;         // NaN → NaN, ∞ → ∞
         x.setQnan(invalidMask);        // x < 0 → NaN
         x(infinityMask) = C::neginf(); // x = 0 → -∞
 
-- 
2.43.0


From 467088648a168488449780f6b043c96ee4a4bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 26/64] fix: gathering structs from interleaved memory asserted
 that all indexes differ

---
 Vc/common/interleavedmemory.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Vc/common/interleavedmemory.h b/Vc/common/interleavedmemory.h
index f2f6ec4..5030d62 100644
--- a/Vc/common/interleavedmemory.h
+++ b/Vc/common/interleavedmemory.h
@@ -146,7 +146,6 @@ struct InterleavedMemoryAccess : public InterleavedMemoryReadAccess<StructSize,
     Vc_ALWAYS_INLINE InterleavedMemoryAccess(Ta *data, typename I::AsArg indexes)
         : InterleavedMemoryReadAccess<StructSize, V, I, false>(data, indexes)
     {
-        CheckIndexesUnique<I>::test(indexes);
     }
 
     template <int N> Vc_ALWAYS_INLINE void operator=(VectorReferenceArray<N, V> &&rhs)
-- 
2.43.0


From be6c8b6d65433bc3832f95301fe2ef77d08cef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 27/64] fix: deinterleaving 3, 5, 6, or 7 members read memory
 behind the last struct

---
 Vc/avx/detail.h | 112 +++++++++++++++++++-----------------------------
 Vc/sse/detail.h | 112 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 120 insertions(+), 104 deletions(-)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index b62a562..e468631 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1466,18 +1466,18 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const __m256i tmp0 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[0]]), *aliasing_cast<double>(&data[i[1]]),
-            *aliasing_cast<double>(&data[i[8]]), *aliasing_cast<double>(&data[i[9]])));
-        const __m256i tmp1 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[2]]), *aliasing_cast<double>(&data[i[3]]),
-            *aliasing_cast<double>(&data[i[10]]), *aliasing_cast<double>(&data[i[11]])));
-        const __m256i tmp2 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[4]]), *aliasing_cast<double>(&data[i[5]]),
-            *aliasing_cast<double>(&data[i[12]]), *aliasing_cast<double>(&data[i[13]])));
-        const __m256i tmp3 = avx_cast<__m256i>(_mm256_setr_pd(
-            *aliasing_cast<double>(&data[i[6]]), *aliasing_cast<double>(&data[i[7]]),
-            *aliasing_cast<double>(&data[i[14]]), *aliasing_cast<double>(&data[i[15]])));
+        const __m256i tmp0 = concat(
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[0]), loadInterleaved<3>(data + i[1])),
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[8]), loadInterleaved<3>(data + i[9])));
+        const __m256i tmp1 = concat(
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[2]), loadInterleaved<3>(data + i[3])),
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[10]), loadInterleaved<3>(data + i[11])));
+        const __m256i tmp2 = concat(
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[4]), loadInterleaved<3>(data + i[5])),
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[12]), loadInterleaved<3>(data + i[13])));
+        const __m256i tmp3 = concat(
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[6]), loadInterleaved<3>(data + i[7])),
+            _mm_unpacklo_epi64(loadInterleaved<3>(data + i[14]), loadInterleaved<3>(data + i[15])));
         const __m256i tmp4 = AVX::unpacklo_epi16(tmp0, tmp2); // a0 a4 b0 b4 c0 c4 XX XX | a8 a12 b8 ...
         const __m256i tmp5 = AVX::unpackhi_epi16(tmp0, tmp2); // a1 a5 ...
         const __m256i tmp6 = AVX::unpacklo_epi16(tmp1, tmp3); // a2 a6 ...
@@ -1527,22 +1527,14 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadInterleaved<5>(data + i[0]), loadInterleaved<5>(data + i[8]));
+        const __m256i b = concat(loadInterleaved<5>(data + i[1]), loadInterleaved<5>(data + i[9]));
+        const __m256i c = concat(loadInterleaved<5>(data + i[2]), loadInterleaved<5>(data + i[10]));
+        const __m256i d = concat(loadInterleaved<5>(data + i[3]), loadInterleaved<5>(data + i[11]));
+        const __m256i e = concat(loadInterleaved<5>(data + i[4]), loadInterleaved<5>(data + i[12]));
+        const __m256i f = concat(loadInterleaved<5>(data + i[5]), loadInterleaved<5>(data + i[13]));
+        const __m256i g = concat(loadInterleaved<5>(data + i[6]), loadInterleaved<5>(data + i[14]));
+        const __m256i h = concat(loadInterleaved<5>(data + i[7]), loadInterleaved<5>(data + i[15]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1570,22 +1562,14 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadInterleaved<6>(data + i[0]), loadInterleaved<6>(data + i[8]));
+        const __m256i b = concat(loadInterleaved<6>(data + i[1]), loadInterleaved<6>(data + i[9]));
+        const __m256i c = concat(loadInterleaved<6>(data + i[2]), loadInterleaved<6>(data + i[10]));
+        const __m256i d = concat(loadInterleaved<6>(data + i[3]), loadInterleaved<6>(data + i[11]));
+        const __m256i e = concat(loadInterleaved<6>(data + i[4]), loadInterleaved<6>(data + i[12]));
+        const __m256i f = concat(loadInterleaved<6>(data + i[5]), loadInterleaved<6>(data + i[13]));
+        const __m256i g = concat(loadInterleaved<6>(data + i[6]), loadInterleaved<6>(data + i[14]));
+        const __m256i h = concat(loadInterleaved<6>(data + i[7]), loadInterleaved<6>(data + i[15]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1614,22 +1598,14 @@ template<typename V> struct InterleaveImpl<V, 16, 32> {
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
         using namespace AVX;
-        const __m256i a = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[8]])));
-        const __m256i b = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[9]])));
-        const __m256i c = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[10]])));
-        const __m256i d = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[11]])));
-        const __m256i e = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[12]])));
-        const __m256i f = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[13]])));
-        const __m256i g = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[14]])));
-        const __m256i h = concat(_mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]])),
-                                 _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[15]])));
+        const __m256i a = concat(loadInterleaved<7>(data + i[0]), loadInterleaved<7>(data + i[8]));
+        const __m256i b = concat(loadInterleaved<7>(data + i[1]), loadInterleaved<7>(data + i[9]));
+        const __m256i c = concat(loadInterleaved<7>(data + i[2]), loadInterleaved<7>(data + i[10]));
+        const __m256i d = concat(loadInterleaved<7>(data + i[3]), loadInterleaved<7>(data + i[11]));
+        const __m256i e = concat(loadInterleaved<7>(data + i[4]), loadInterleaved<7>(data + i[12]));
+        const __m256i f = concat(loadInterleaved<7>(data + i[5]), loadInterleaved<7>(data + i[13]));
+        const __m256i g = concat(loadInterleaved<7>(data + i[6]), loadInterleaved<7>(data + i[14]));
+        const __m256i h = concat(loadInterleaved<7>(data + i[7]), loadInterleaved<7>(data + i[15]));
 
         const __m256i tmp2  = AVX::unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4 | a8 ...
         const __m256i tmp4  = AVX::unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1950,14 +1926,14 @@ template<typename V> struct InterleaveImpl<V, 8, 32> {
                                     V &v0, V &v1, V &v2)
     {
         using namespace AVX;
-        const m128  il0 = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]])); // a0 b0 c0 d0
-        const m128  il1 = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]])); // a1 b1 c1 d1
-        const m128  il2 = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]])); // a2 b2 c2 d2
-        const m128  il3 = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]])); // a3 b3 c3 d3
-        const m128  il4 = _mm_loadu_ps(aliasing_cast<float>(&data[i[4]])); // a4 b4 c4 d4
-        const m128  il5 = _mm_loadu_ps(aliasing_cast<float>(&data[i[5]])); // a5 b5 c5 d5
-        const m128  il6 = _mm_loadu_ps(aliasing_cast<float>(&data[i[6]])); // a6 b6 c6 d6
-        const m128  il7 = _mm_loadu_ps(aliasing_cast<float>(&data[i[7]])); // a7 b7 c7 d7
+        const m128  il0 = _mm_castsi128_ps(loadInterleaved<3>(data + i[0])); // a0 b0 c0 d0
+        const m128  il1 = _mm_castsi128_ps(loadInterleaved<3>(data + i[1])); // a1 b1 c1 d1
+        const m128  il2 = _mm_castsi128_ps(loadInterleaved<3>(data + i[2])); // a2 b2 c2 d2
+        const m128  il3 = _mm_castsi128_ps(loadInterleaved<3>(data + i[3])); // a3 b3 c3 d3
+        const m128  il4 = _mm_castsi128_ps(loadInterleaved<3>(data + i[4])); // a4 b4 c4 d4
+        const m128  il5 = _mm_castsi128_ps(loadInterleaved<3>(data + i[5])); // a5 b5 c5 d5
+        const m128  il6 = _mm_castsi128_ps(loadInterleaved<3>(data + i[6])); // a6 b6 c6 d6
+        const m128  il7 = _mm_castsi128_ps(loadInterleaved<3>(data + i[7])); // a7 b7 c7 d7
 
         const m256 il04 = concat(il0, il4);
         const m256 il15 = concat(il1, il5);
diff --git a/Vc/sse/detail.h b/Vc/sse/detail.h
index af29a5d..2277a1b 100644
--- a/Vc/sse/detail.h
+++ b/Vc/sse/detail.h
@@ -819,6 +819,46 @@ static Vc_INTRINSIC Vc_CONST enable_if<(sizeof(V) == 16), V> rotated(V v, int am
 
 //InterleaveImpl{{{1
 template<typename V, size_t Size, size_t VSize> struct InterleaveImpl;
+// load exactly the first N (3, 5, 6, or 7) entries of an interleaved struct {{{
+// i.e. without touching the memory behind the struct, which need not be readable. The
+// remaining entries of the return value are 0.
+template <size_t N> struct InterleaveLoad;
+template <> struct InterleaveLoad<3> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *x, std::integral_constant<size_t, 2>)
+    {
+        return _mm_insert_epi16(_mm_cvtsi32_si128(*aliasing_cast<int>(x)), x[2], 2);
+    }
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *x, std::integral_constant<size_t, 4>)
+    {
+        return _mm_castps_si128(
+            _mm_movelh_ps(_mm_castpd_ps(_mm_load_sd(aliasing_cast<double>(x))),
+                          _mm_load_ss(aliasing_cast<float>(x + 2))));
+    }
+};
+template <> struct InterleaveLoad<5> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *x, std::integral_constant<size_t, 2>)
+    {
+        return _mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(x)), x[4], 4);
+    }
+};
+template <> struct InterleaveLoad<6> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *x, std::integral_constant<size_t, 2>)
+    {
+        return _mm_unpacklo_epi64(_mm_loadl_epi64(reinterpret_cast<const __m128i *>(x)),
+                                  _mm_cvtsi32_si128(*aliasing_cast<int>(x + 4)));
+    }
+};
+template <> struct InterleaveLoad<7> {
+    template <typename T> static Vc_INTRINSIC __m128i load(const T *x, std::integral_constant<size_t, 2>)
+    {
+        return _mm_insert_epi16(InterleaveLoad<6>::load(x, std::integral_constant<size_t, 2>()), x[6], 6);
+    }
+};
+template <size_t N, typename T> static Vc_INTRINSIC __m128i loadInterleaved(const T *x)
+{
+    return InterleaveLoad<N>::load(x, std::integral_constant<size_t, sizeof(T)>());
+}
+// }}}
 template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void interleave(typename V::EntryType *const data, const I &i,/*{{{*/
             const typename V::AsArg v0, const typename V::AsArg v1)
@@ -1004,14 +1044,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128i a = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadl_epi64(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadInterleaved<3>(data + i[0]);
+        const __m128i b = loadInterleaved<3>(data + i[1]);
+        const __m128i c = loadInterleaved<3>(data + i[2]);
+        const __m128i d = loadInterleaved<3>(data + i[3]);
+        const __m128i e = loadInterleaved<3>(data + i[4]);
+        const __m128i f = loadInterleaved<3>(data + i[5]);
+        const __m128i g = loadInterleaved<3>(data + i[6]);
+        const __m128i h = loadInterleaved<3>(data + i[7]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1057,14 +1097,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadInterleaved<5>(data + i[0]);
+        const __m128i b = loadInterleaved<5>(data + i[1]);
+        const __m128i c = loadInterleaved<5>(data + i[2]);
+        const __m128i d = loadInterleaved<5>(data + i[3]);
+        const __m128i e = loadInterleaved<5>(data + i[4]);
+        const __m128i f = loadInterleaved<5>(data + i[5]);
+        const __m128i g = loadInterleaved<5>(data + i[6]);
+        const __m128i h = loadInterleaved<5>(data + i[7]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1091,14 +1131,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadInterleaved<6>(data + i[0]);
+        const __m128i b = loadInterleaved<6>(data + i[1]);
+        const __m128i c = loadInterleaved<6>(data + i[2]);
+        const __m128i d = loadInterleaved<6>(data + i[3]);
+        const __m128i e = loadInterleaved<6>(data + i[4]);
+        const __m128i f = loadInterleaved<6>(data + i[5]);
+        const __m128i g = loadInterleaved<6>(data + i[6]);
+        const __m128i h = loadInterleaved<6>(data + i[7]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1126,14 +1166,14 @@ template<typename V> struct InterleaveImpl<V, 8, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2, V &v3, V &v4, V &v5, V &v6)
     {
-        const __m128i a = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[0]]));
-        const __m128i b = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[1]]));
-        const __m128i c = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[2]]));
-        const __m128i d = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[3]]));
-        const __m128i e = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[4]]));
-        const __m128i f = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[5]]));
-        const __m128i g = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[6]]));
-        const __m128i h = _mm_loadu_si128(reinterpret_cast<const __m128i *>(&data[i[7]]));
+        const __m128i a = loadInterleaved<7>(data + i[0]);
+        const __m128i b = loadInterleaved<7>(data + i[1]);
+        const __m128i c = loadInterleaved<7>(data + i[2]);
+        const __m128i d = loadInterleaved<7>(data + i[3]);
+        const __m128i e = loadInterleaved<7>(data + i[4]);
+        const __m128i f = loadInterleaved<7>(data + i[5]);
+        const __m128i g = loadInterleaved<7>(data + i[6]);
+        const __m128i h = loadInterleaved<7>(data + i[7]);
 
         const __m128i tmp2  = _mm_unpacklo_epi16(a, e); // a0 a4 b0 b4 c0 c4 d0 d4
         const __m128i tmp4  = _mm_unpacklo_epi16(b, f); // a1 a5 b1 b5 c1 c5 d1 d5
@@ -1316,10 +1356,10 @@ template<typename V> struct InterleaveImpl<V, 4, 16> {
     template<typename I> static inline void deinterleave(typename V::EntryType const *const data,/*{{{*/
             const I &i, V &v0, V &v1, V &v2)
     {
-        const __m128 a = _mm_loadu_ps(aliasing_cast<float>(&data[i[0]]));
-        const __m128 b = _mm_loadu_ps(aliasing_cast<float>(&data[i[1]]));
-        const __m128 c = _mm_loadu_ps(aliasing_cast<float>(&data[i[2]]));
-        const __m128 d = _mm_loadu_ps(aliasing_cast<float>(&data[i[3]]));
+        const __m128 a = _mm_castsi128_ps(loadInterleaved<3>(data + i[0]));
+        const __m128 b = _mm_castsi128_ps(loadInterleaved<3>(data + i[1]));
+        const __m128 c = _mm_castsi128_ps(loadInterleaved<3>(data + i[2]));
+        const __m128 d = _mm_castsi128_ps(loadInterleaved<3>(data + i[3]));
 
         const __m128 tmp0 = _mm_unpacklo_ps(a, b); // [a0 a1 b0 b1]
         const __m128 tmp1 = _mm_unpacklo_ps(c, d); // [a2 a3 b2 b3]
-- 
2.43.0


From e739a3ae7feab4e6dee29a16b234e10cfe1993f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 28/64] fix: AVX2 deinterleave of ushort memory into uint
 vectors extended the sign

---
 Vc/avx/deinterleave.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/avx/deinterleave.tcc b/Vc/avx/deinterleave.tcc
index 2f36825..0880ce1 100644
--- a/Vc/avx/deinterleave.tcc
+++ b/Vc/avx/deinterleave.tcc
@@ -249,11 +249,11 @@ inline void deinterleave(AVX2::uint_v &a, AVX2::uint_v &b, const unsigned short
     const AVX2::ushort_v tmp0(m, f);
     const m256i tmp = tmp0.data();
     a.data() = concat(
-                _mm_srai_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
-                _mm_srai_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
+                _mm_srli_epi32(_mm_slli_epi32(lo128(tmp), 16), 16),
+                _mm_srli_epi32(_mm_slli_epi32(hi128(tmp), 16), 16));
     b.data() = concat(
-                _mm_srai_epi32(lo128(tmp), 16),
-                _mm_srai_epi32(hi128(tmp), 16));
+                _mm_srli_epi32(lo128(tmp), 16),
+                _mm_srli_epi32(hi128(tmp), 16));
 }
 
 template <typename Flags>
-- 
2.43.0


From 6f16d65a28f43995098baf048e9d03ea0e83d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 29/64] fix: the proxy returned from Vc::transpose stored
 references to destroyed arguments

---
 Vc/common/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/transpose.h b/Vc/common/transpose.h
index f8928f9..8b18f2c 100644
--- a/Vc/common/transpose.h
+++ b/Vc/common/transpose.h
@@ -39,7 +39,7 @@ template <typename... Inputs> struct TransposeProxy
 {
     TransposeProxy(const Inputs &... inputs) : in{inputs...} {}
 
-    std::tuple<const Inputs &...> in;
+    std::tuple<Inputs...> in;
 };
 
 template <int LhsLength, size_t RhsLength> struct TransposeTag {
-- 
2.43.0


From b2acf1939e13d82aaa4b244e5ca7bbf6bbd5006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 30/64] fix: MemoryBase::operator= lacked its return statement

---
 Vc/common/memorybase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index 9e96e88..bdf0606 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -603,6 +603,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
             for (size_t i = 0; i < vectorsCount(); ++i) {
                 vector(i) = std::forward<U>(x);
             }
+            return static_cast<Parent &>(*this);
         }
 
         /**
-- 
2.43.0


From 7a49ced0291aa079894b28eca893a7b55ac98ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 31/64] fix: comparisons and divisions of Vc::Memory objects
 depended on their padding

---
 Vc/common/memorybase.h | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index bdf0606..aa50a06 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -29,6 +29,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #define VC_COMMON_MEMORYBASE_H_
 
 #include <assert.h>
+#include <algorithm>
 #include <type_traits>
 #include <iterator>
 #include "macros.h"
@@ -298,6 +299,13 @@ template<typename V, typename Parent, typename RowMemory> class MemoryDimensionB
         {
             return V(entries(), i);
         }
+
+    protected:
+        /// \internal The number of entries in the \p i-th vector that are not padding.
+        Vc_ALWAYS_INLINE Vc_PURE size_t usedEntries(size_t i) const
+        {
+            return (std::min)(size_t(V::Size), p()->entriesCount() - i * V::Size);
+        }
 };
 template<typename V, typename Parent, typename RowMemory> class MemoryDimensionBase<V, Parent, 2, RowMemory> // {{{1
 {
@@ -343,6 +351,14 @@ template<typename V, typename Parent, typename RowMemory> class MemoryDimensionB
          * \note This function can be eliminated by an optimizing compiler.
          */
         Vc_ALWAYS_INLINE Vc_PURE size_t rowsCount() const { return p()->rowsCount(); }
+
+    protected:
+        /// \internal The number of entries in the \p i-th vector that are not padding.
+        Vc_ALWAYS_INLINE Vc_PURE size_t usedEntries(size_t i) const
+        {
+            const size_t column = i % Parent::VectorsCount * V::Size;
+            return (std::min)(size_t(V::Size), p()->m_mem[0].entriesCount() - column);
+        }
 };
 
 //dox{{{1
@@ -371,6 +387,15 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         template <class Flags>
         using const_vector_reference = const MayAlias<MemoryVector<const V, Flags>> &;
 
+        /// \internal Mask that is \c true for the entries in the \p i-th vector that are padding.
+        Vc_ALWAYS_INLINE typename V::Mask padding(size_t i) const {
+            typename V::Mask k(false);
+            for (size_t j = this->usedEntries(i); j < V::Size; ++j) {
+                k[j] = true;
+            }
+            return k;
+        }
+
     public:
         /**
          * The type of the scalar entries in the array.
@@ -649,7 +674,9 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline Parent &operator/=(const MemoryBase<V, P2, Dimension, RM> &rhs) {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                vector(i) /= rhs.vector(i);
+                V divisor = rhs.vector(i);
+                divisor(padding(i)) = V::One();  // don't divide by zero
+                vector(i) /= divisor;
             }
             return static_cast<Parent &>(*this);
         }
@@ -705,7 +732,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator==(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) == V(rhs.vector(i))).isFull()) {
+                if (!((V(vector(i)) == V(rhs.vector(i))) || padding(i)).isFull()) {
                     return false;
                 }
             }
@@ -719,7 +746,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator!=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) == V(rhs.vector(i))).isEmpty()) {
+                if (!((V(vector(i)) == V(rhs.vector(i))) && !padding(i)).isEmpty()) {
                     return false;
                 }
             }
@@ -733,7 +760,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator<(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) < V(rhs.vector(i))).isFull()) {
+                if (!((V(vector(i)) < V(rhs.vector(i))) || padding(i)).isFull()) {
                     return false;
                 }
             }
@@ -747,7 +774,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator<=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) <= V(rhs.vector(i))).isFull()) {
+                if (!((V(vector(i)) <= V(rhs.vector(i))) || padding(i)).isFull()) {
                     return false;
                 }
             }
@@ -761,7 +788,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator>(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) > V(rhs.vector(i))).isFull()) {
+                if (!((V(vector(i)) > V(rhs.vector(i))) || padding(i)).isFull()) {
                     return false;
                 }
             }
@@ -775,7 +802,7 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
         inline bool operator>=(const MemoryBase<V, P2, Dimension, RM> &rhs) const {
             assert(vectorsCount() == rhs.vectorsCount());
             for (size_t i = 0; i < vectorsCount(); ++i) {
-                if (!(V(vector(i)) >= V(rhs.vector(i))).isFull()) {
+                if (!((V(vector(i)) >= V(rhs.vector(i))) || padding(i)).isFull()) {
                     return false;
                 }
             }
-- 
2.43.0


From 00c45d58766e0c795c4764f35508bdc1bcc622f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 32/64] fix: Vc::Memory was too small for vector types whose
 size is not a power of two

---
 Vc/common/memory.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 8275dfd..7a904d5 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -46,8 +46,7 @@ template<typename V, size_t Size> struct _MemorySizeCalculation
 {
     enum AlignmentCalculations {
         Alignment = V::Size,
-        AlignmentMask = Alignment - 1,
-        MaskedSize = Size & AlignmentMask,
+        MaskedSize = Size % Alignment,
         Padding = Alignment - MaskedSize,
         PaddedSize = MaskedSize == 0 ? Size : Size + Padding
     };
@@ -207,7 +206,7 @@ class Memory<V, Size, 0u, InitPadding> :
             friend class MemoryDimensionBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             enum : size_t {
                 Alignment = V::MemoryAlignment,     // in Bytes
-                MaskedSize = Size & (V::Size - 1),  // the fraction of Size that exceeds
+                MaskedSize = Size % V::Size,  // the fraction of Size that exceeds
                                                     // an integral multiple of V::Size
                 Padding = V::Size - MaskedSize,
                 PaddedSize = MaskedSize == 0 ? Size : Size + Padding
@@ -370,15 +369,14 @@ class Memory<V, Size, 0u, InitPadding> :
             friend class MemoryBase<V, Memory<V>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V>, 1, void>;
         enum InternalConstants {
-            Alignment = V::Size,
-            AlignmentMask = Alignment - 1
+            Alignment = V::Size
         };
         size_t m_entriesCount;
         size_t m_vectorsCount;
         EntryType *m_mem;
         size_t calcPaddedEntriesCount(size_t x)
         {
-            size_t masked = x & AlignmentMask;
+            size_t masked = x % Alignment;
             return (masked == 0 ? x : x + (Alignment - masked));
         }
     public:
-- 
2.43.0


From a5d0fec858eaeae891babcee06184b91a8779d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 33/64] fix: constructing an empty Vc::Memory wrote in front of
 the allocated memory

---
 Vc/common/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index 7a904d5..d2976f7 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -395,7 +395,9 @@ class Memory<V, Size, 0u, InitPadding> :
             m_mem(Vc::malloc<EntryType, Vc::AlignOnVector>(m_vectorsCount))
         {
             m_vectorsCount /= V::Size;
-            Base::lastVector() = V::Zero();
+            if (m_vectorsCount > 0) {
+                Base::lastVector() = V::Zero();
+            }
         }
 
         /**
-- 
2.43.0


From dfea23b65050201fa4eb69ab24e3d1dc8c668958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 34/64] fix: Memory::fromRawData did not compile and let the
 compiler discard the wrapped data

---
 Vc/common/memory.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Vc/common/memory.h b/Vc/common/memory.h
index d2976f7..3c96beb 100644
--- a/Vc/common/memory.h
+++ b/Vc/common/memory.h
@@ -202,6 +202,7 @@ class Memory<V, Size, 0u, InitPadding> :
             typedef typename V::EntryType EntryType;
         private:
             typedef MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void> Base;
+            friend class Memory<V, Size, 0u, !InitPadding>;
             friend class MemoryBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             friend class MemoryDimensionBase<V, Memory<V, Size, 0u, InitPadding>, 1, void>;
             enum : size_t {
@@ -261,13 +262,14 @@ class Memory<V, Size, 0u, InitPadding> :
              */
             static Vc_ALWAYS_INLINE Vc_CONST Memory<V, Size, 0u, false> &fromRawData(EntryType *ptr)
             {
-                // DANGER! This placement new has to use the right address. If the compiler decides
-                // RowMemory requires padding before the actual data then the address has to be adjusted
-                // accordingly
+                // DANGER! This cast has to use the right address. If the compiler decides RowMemory
+                // requires padding before the actual data then the address has to be adjusted
+                // accordingly. (A placement new would start the lifetime of a new object, which
+                // allows the compiler to drop all previous stores to the memory.)
                 char *addr = reinterpret_cast<char *>(ptr);
                 typedef Memory<V, Size, 0u, false> MM;
                 addr -= offsetof(MM, m_mem);
-                return *new(addr) MM;
+                return *reinterpret_cast<MM *>(addr);
             }
 
             /**
-- 
2.43.0


From af04d678832a6584a75dbb045bf4009b4db7c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 35/64] fix: new SimdArray returned memory that is not
 sufficiently aligned

---
 Vc/common/simdarray.h     | 4 ++--
 Vc/common/simdmaskarray.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index 6b9573a..c69d83c 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -520,7 +520,7 @@ public:
     /// \internal
     Vc_INTRINSIC SimdArray(private_init_t, VectorType &&x) : data(std::move(x)) {}
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private:
     // The alignas attribute attached to the class declaration above is ignored by ICC
@@ -1481,7 +1481,7 @@ public:
     {
     }
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(storage_type0));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdArray));
 
 private: //{{{2
     // The alignas attribute attached to the class declaration above is ignored by ICC
diff --git a/Vc/common/simdmaskarray.h b/Vc/common/simdmaskarray.h
index 1666cfb..6c1eb79 100644
--- a/Vc/common/simdmaskarray.h
+++ b/Vc/common/simdmaskarray.h
@@ -76,7 +76,7 @@ public:
     using reference = EntryReference;
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     SimdMaskArray() = default;
@@ -368,7 +368,7 @@ public:
     /// An alias for the corresponding SimdArray type.
     using Vector = fixed_size_simd<T, N>;
 
-    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(mask_type));
+    Vc_FREE_STORE_OPERATORS_ALIGNED(alignof(SimdMaskArray));
 
     // zero init
     ///\copydoc Mask::Mask()
-- 
2.43.0


From 26e38678c215fd4240353091089e97ef7a819b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 36/64] fix: Vc::malloc returned too small blocks if the size
 computation overflowed

---
 Vc/common/malloc.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index eec335e..67eb258 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -52,6 +52,9 @@ template <size_t X> static constexpr size_t nextMultipleOf(size_t value)
 
 template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n)
 {
+    if (nextMultipleOf<alignment>(n) < n) {  // the padded size is not representable
+        return nullptr;
+    }
 #ifdef __MIC__
     return _mm_malloc(nextMultipleOf<alignment>(n), alignment);
 #elif defined(_WIN32)
@@ -135,6 +138,9 @@ Vc_ALWAYS_INLINE void free(void *p)
 template<typename T, Vc::MallocAlignment A>
 Vc_ALWAYS_INLINE T *malloc(size_t n)
 {
+    if (n > size_t(-1) / sizeof(T)) {
+        return nullptr;
+    }
     return static_cast<T *>(Common::malloc<A>(n * sizeof(T)));
 }
 
-- 
2.43.0


From 96fc4676295413cc66588d20ad84f2fb72452cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 37/64] fix: Vc::Allocator::allocate returned a too small block
 close to max_size

---
 Vc/Allocator | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/Allocator b/Vc/Allocator
index 60febff..3c3a19d 100644
--- a/Vc/Allocator
+++ b/Vc/Allocator
@@ -207,7 +207,7 @@ namespace Vc_VERSIONED_NAMESPACE
             ::operator delete(p);
         }
 
-        size_type max_size() const throw() { return size_t(-1) / sizeof(T); }
+        size_type max_size() const throw() { return (size_t(-1) - ExtraBytes) / sizeof(T); }
 
 #ifdef Vc_MSVC
         // MSVC brokenness: the following function is optional - just doesn't compile without it
-- 
2.43.0


From cdd0b8609ab3ebd90f7653eb14e98041fd4810df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 38/64] fix: operator new of vector types returned a null
 pointer instead of throwing bad_alloc

---
 Vc/common/alignedbase.h |  1 +
 Vc/common/macros.h      |  4 ++--
 Vc/common/malloc.h      | 13 +++++++++++++
 Vc/common/simdize.h     |  4 ++--
 Vc/common/types.h       |  2 ++
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/Vc/common/alignedbase.h b/Vc/common/alignedbase.h
index f1c405b..e81244b 100644
--- a/Vc/common/alignedbase.h
+++ b/Vc/common/alignedbase.h
@@ -50,6 +50,7 @@ template <typename T, typename... Ts> constexpr T max(T a, T b, Ts... rest)
 namespace Common
 {
 template <std::size_t> Vc_INTRINSIC void *aligned_malloc(std::size_t);
+template <std::size_t> Vc_INTRINSIC void *aligned_new(std::size_t);
 Vc_ALWAYS_INLINE void free(void *);
 }  // namespace Common
 
diff --git a/Vc/common/macros.h b/Vc/common/macros.h
index ff1479f..b5ee00f 100644
--- a/Vc/common/macros.h
+++ b/Vc/common/macros.h
@@ -186,14 +186,14 @@ static Vc_INTRINSIC void unreachable() { __assume(0); }
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new(size_t size)                                     \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new(size_t, void *p) { return p; }                   \
     /*!\brief Allocates correctly aligned memory */                                      \
     Vc_ALWAYS_INLINE void *operator new[](size_t size)                                   \
     {                                                                                    \
-        return Vc::Common::aligned_malloc<align_>(size);                                 \
+        return Vc::Common::aligned_new<align_>(size);                                    \
     }                                                                                    \
     /*!\brief Returns \p p. */                                                           \
     Vc_ALWAYS_INLINE void *operator new[](size_t, void *p) { return p; }                 \
diff --git a/Vc/common/malloc.h b/Vc/common/malloc.h
index 67eb258..53e7a2d 100644
--- a/Vc/common/malloc.h
+++ b/Vc/common/malloc.h
@@ -38,6 +38,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cstdlib>
 #endif
 
+#include <new>
 #include "macros.h"
 
 namespace Vc_VERSIONED_NAMESPACE
@@ -73,6 +74,18 @@ template <std::size_t alignment> Vc_INTRINSIC void *aligned_malloc(std::size_t n
 #endif
 }
 
+/**\internal
+ * Implements operator new: reports an error via std::bad_alloc instead of a null pointer.
+ */
+template <std::size_t alignment> Vc_INTRINSIC void *aligned_new(std::size_t n)
+{
+    void *ptr = aligned_malloc<alignment>(n);
+    if (ptr == nullptr) {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 template <Vc::MallocAlignment A> Vc_ALWAYS_INLINE void *malloc(size_t n)
 {
     switch (A) {
diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 5fa34d0..ae23000 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -902,12 +902,12 @@ public:
     /// ignores by default.
     void *operator new(size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new(size_t, void *p_) { return p_; }
     void *operator new[](size_t size)
     {
-        return Vc::Common::aligned_malloc<alignof(Adapter)>(size);
+        return Vc::Common::aligned_new<alignof(Adapter)>(size);
     }
     void *operator new[](size_t , void *p_) { return p_; }
     void operator delete(void *ptr_, size_t) { Vc::Common::free(ptr_); }
diff --git a/Vc/common/types.h b/Vc/common/types.h
index 50ce57d..33948fd 100644
--- a/Vc/common/types.h
+++ b/Vc/common/types.h
@@ -295,6 +295,8 @@ public:
 // declaration for functions in common/malloc.h
 template <std::size_t alignment>
 Vc_INTRINSIC_L void *aligned_malloc(std::size_t n) Vc_INTRINSIC_R;
+template <std::size_t alignment>
+Vc_INTRINSIC_L void *aligned_new(std::size_t n) Vc_INTRINSIC_R;
 Vc_ALWAYS_INLINE_L void free(void *p) Vc_ALWAYS_INLINE_R;
 
 /**\internal
-- 
2.43.0


From 5b8d071be088dd602916ac9055aee2eabcb71480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 39/64] fix: end() of an empty Vc::Memory computed an address
 in front of the memory

---
 Vc/common/memorybase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/memorybase.h b/Vc/common/memorybase.h
index aa50a06..fa905b7 100644
--- a/Vc/common/memorybase.h
+++ b/Vc/common/memorybase.h
@@ -429,10 +429,10 @@ template<typename V, typename Parent, int Dimension, typename RowMemory> class M
          * Return a (vectorized) iterator to the end of this memory object.
          */
         template<typename Flags = AlignedTag>
-        Vc_ALWAYS_INLINE MemoryVectorIterator<      V, Flags>   end(Flags flags = Flags())       { return &lastVector(flags) + 1; }
+        Vc_ALWAYS_INLINE MemoryVectorIterator<      V, Flags>   end(Flags flags = Flags())       { return &vector(vectorsCount(), flags); }
         //! const overload of the above
         template<typename Flags = AlignedTag>
-        Vc_ALWAYS_INLINE MemoryVectorIterator<const V, Flags>   end(Flags flags = Flags()) const { return &lastVector(flags) + 1; }
+        Vc_ALWAYS_INLINE MemoryVectorIterator<const V, Flags>   end(Flags flags = Flags()) const { return &vector(vectorsCount(), flags); }
 
         /**
          * \param i Selects the offset, where the vector should be read.
-- 
2.43.0


From 4a516dea5c5ced19febf7c080fa4962769f8edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 40/64] fix: interleaved access to simdized std::tuple objects
 swapped the members

load_interleaved and store_interleaved treat the object as an array of its
members. std::tuple stores its members in reverse order with libstdc++, so
use the per-member path unless the members are in order.
---
 Vc/common/simdize.h | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index ae23000..ea56091 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1162,6 +1162,25 @@ template <typename A> inline void swap(Scalar<A> &&a, Scalar<A> &&b)
     swap_impl(a.a, a.i, b.a, b.i, typename Scalar<A>::IndexSeq());
 }
 // }}}
+// members_in_order {{{
+/**\internal
+ * Returns whether the members of \p x are stored in the order of their indexes, without
+ * gaps. (The elements of a std::tuple, e.g., may be stored in reverse order.)
+ */
+template <class S, size_t... I>
+inline bool members_in_order(const S &x, Vc::index_sequence<I...>)
+{
+    const char *const addresses[] = {
+        reinterpret_cast<const char *>(std::addressof(get_dispatcher<I>(x)))...};
+    for (size_t i = 0; i < sizeof...(I); ++i) {
+        if (addresses[i] != reinterpret_cast<const char *>(std::addressof(x)) +
+                                i * homogeneous_sizeof<S>::value) {
+            return false;
+        }
+    }
+    return true;
+}
+// }}}
 // load_interleaved_impl {{{
 template <class S, class T, size_t N, size_t... I>
 inline void load_interleaved_impl(Vc::index_sequence<I...>, Adapter<S, T, N> &a,
@@ -1256,11 +1275,12 @@ Vc_INTRINSIC typename V::EntryType extract(const V &v, size_t i)
 template <class S, class T, size_t N>
 inline void load_interleaved(SimdizeDetail::Adapter<S, T, N> &a, const S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { assign(a, i, mem[i]); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::load_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                              mem);
     }
@@ -1277,11 +1297,12 @@ Vc_INTRINSIC void load_interleaved(V &a, const T *mem)
 template <class S, class T, size_t N>
 inline void store_interleaved(const SimdizeDetail::Adapter<S, T, N> &a, S *mem)
 {
-    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0) {
+    constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
+    if (SimdizeDetail::homogeneous_sizeof<S>::value == 0 ||
+        !SimdizeDetail::members_in_order(*mem, Vc::make_index_sequence<TupleSize>())) {
         Common::unrolled_loop<std::size_t, 0, N>(
             [&](std::size_t i) { mem[i] = extract(a, i); });
     } else {
-        constexpr size_t TupleSize = SimdizeDetail::determine_tuple_size_<S>::value;
         SimdizeDetail::store_interleaved_impl(Vc::make_index_sequence<TupleSize>(), a,
                                               mem);
     }
-- 
2.43.0


From 50fd10bb45c8a2c1f9f05a46d3d5b22bba9178f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 41/64] fix: dereferencing a simdized iterator of a
 Vc_SIMDIZE_INTERFACE struct did not compile

The number of members is a property of the scalar type.
---
 Vc/common/simdize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index ea56091..2a64736 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1370,7 +1370,8 @@ Vc_INTRINSIC V fromIteratorImpl(enable_if<(I < End), It> it)
 template <typename It, typename V>
 Vc_INTRINSIC V fromIterator(enable_if<!Traits::is_simd_vector<V>::value, const It &> it)
 {
-    return fromIteratorImpl<It, V, 0, determine_tuple_size<V>()>(it);
+    return fromIteratorImpl<It, V, 0, determine_tuple_size<typename V::scalar_type>()>(
+        it);
 }
 
 template <typename It, typename V>
-- 
2.43.0


From 6c771dadd0a852ae2e2560616f4aed2aa89c1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 42/64] fix: simdized iterators of non-contiguous random access
 containers read wrong memory

std::deque iterators are random access iterators without contiguous storage:
check before loading a vector from the address of the first element.
---
 Vc/common/simdize.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index 2a64736..b15185a 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1380,12 +1380,15 @@ Vc_INTRINSIC V fromIterator(
         Traits::is_simd_vector<V>::value && Traits::has_contiguous_storage<It>::value, It>
         it)
 {
-#ifndef _MSC_VER
-    // this check potentially moves it past the end of a container, which is UB. Some STL
-    // implementations, like MS STL, trap this.
-    Vc_ASSERT(&*it + 1 == &*(it + 1));
-#endif
-    return V(&*it, Vc::Unaligned);
+    // Not every random access iterator has contiguous storage (e.g. std::deque).
+    if (std::addressof(*it) + (V::size() - 1) == std::addressof(*(it + (V::size() - 1)))) {
+        return V(std::addressof(*it), Vc::Unaligned);
+    }
+    V r;
+    for (size_t j = 0; j < V::size(); ++j, ++it) {
+        r[j] = *it;
+    }
+    return r;
 }
 
 template <typename It, typename V>
-- 
2.43.0


From 4319024ce26db49ef781f7d76fdfda09240037d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 43/64] fix: assigning to an element of a simdized iterator
 wrote through a dead iterator

it[n] = v dereferences a temporary iterator: keep a copy of the iterator in
the reference object instead of a reference to it.
---
 Vc/common/simdize.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index b15185a..ca605da 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1504,13 +1504,13 @@ class Reference<T, value_vector, Mutable::Yes> : public value_vector
 {
     static constexpr auto Size = value_vector::size();
 
-    using reference = typename std::add_lvalue_reference<T>::type;
-    reference scalar_it;
+    T scalar_it;
 
 public:
-    /// Construct the reference from the given iterator \p first_it and store a reference
-    /// to the iterator for write back in the assignment operator.
-    Reference(reference first_it)
+    /// Construct the reference from the given iterator \p first_it and store a copy of
+    /// the iterator for write back in the assignment operator. (Not a reference: e.g.
+    /// Iterator::operator[] dereferences a temporary iterator.)
+    Reference(const T &first_it)
         : value_vector(fromIterator<T, value_vector>(first_it)), scalar_it(first_it)
     {
     }
-- 
2.43.0


From 56d7d2492ad765b71b371f259506d1d43f1d0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 44/64] fix: comparing simdized iterators incremented past the
 end in debug builds

operator== walked from one iterator in search of the other, beyond the end of
the range, and asserted for e.g. end != begin. Check only where a distance is
available.
---
 Vc/common/simdize.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/Vc/common/simdize.h b/Vc/common/simdize.h
index ca605da..7fa39f4 100644
--- a/Vc/common/simdize.h
+++ b/Vc/common/simdize.h
@@ -1656,19 +1656,8 @@ public:
      */
     bool operator==(const Iterator &rhs) const
     {
-#ifndef NDEBUG
-        if (scalar_it == rhs.scalar_it) {
-            return true;
-        } else {
-            T it(scalar_it);
-            for (size_t i = 1; i < Size; ++i) {
-                Vc_ASSERT((++it != rhs.scalar_it));
-            }
-            return false;
-        }
-#else
+        Vc_ASSERT(!passes(scalar_it, rhs.scalar_it, iterator_category()));
         return scalar_it == rhs.scalar_it;
-#endif
     }
     /**
      * Returns whether the two iterators point to different scalar entries.
@@ -1721,6 +1710,15 @@ public:
 
 protected:
     T scalar_it;
+
+private:
+    /// Returns whether the next step from \p a passes \p b. Only random access iterators
+    /// can tell without being incremented (\p a may be the end of its range).
+    static bool passes(const T &a, const T &b, std::random_access_iterator_tag)
+    {
+        return b - a > 0 && b - a < difference_type(Size);
+    }
+    static bool passes(const T &, const T &, std::forward_iterator_tag) { return false; }
 };
 
 /**
-- 
2.43.0


From a51ef3806514dedf4f9eee62684c426691a17f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 45/64] fix: simd_for_each accessed memory in front of short
 ranges

last - V::Size + 1 points in front of the range if it has less than V::Size
elements. For an empty std::vector (null pointers) the comparison with first
was true and the null pointer was dereferenced.
---
 Vc/common/algorithms.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index 3ad27c6..8670f8b 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -72,8 +72,7 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::Size + 1;
-    for (; first < lastV; first += V::Size) {
+    for (; last - first >= int(V::Size); first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
@@ -95,8 +94,7 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
 {
     typedef simdize<ValueType> V;
     typedef simdize<ValueType, 1> V1;
-    const auto lastV = last - V::size() + 1;
-    for (; first < lastV; first += V::size()) {
+    for (; last - first >= int(V::Size); first += V::Size) {
         V tmp;
         load_interleaved(tmp, std::addressof(*first));
         f(tmp);
-- 
2.43.0


From 74ed64c24147dd8aa0a3652a43ea9d39eb7bd65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 46/64] fix: simd_for_each over a non-contiguous range accessed
 memory outside of it

The iterators of std::deque and std::reverse_iterator support random access
but the elements are not stored one after the other. Load and store element
by element where that is the case.
---
 Vc/common/algorithms.h | 60 +++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index 8670f8b..c025df3 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -32,6 +32,42 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 namespace Vc_VERSIONED_NAMESPACE
 {
+namespace Detail
+{
+/**\internal
+ * Returns whether the \p n elements starting at \p it are stored one after the other in
+ * memory. (This is not the case for every random access iterator, e.g. std::deque.)
+ */
+template <class It> inline bool is_contiguous(const It &it, std::size_t n)
+{
+    return std::addressof(*it) + (n - 1) == std::addressof(*(it + (n - 1)));
+}
+
+/// \internal Loads the elements starting at \p it into \p v.
+template <class V, class It> Vc_INTRINSIC void load_elements(V &v, const It &it)
+{
+    if (is_contiguous(it, V::size())) {
+        load_interleaved(v, std::addressof(*it));
+    } else {
+        for (std::size_t i = 0; i < V::size(); ++i) {
+            assign(v, i, *(it + i));
+        }
+    }
+}
+
+/// \internal Stores \p v to the elements starting at \p it.
+template <class V, class It> Vc_INTRINSIC void store_elements(const V &v, const It &it)
+{
+    if (is_contiguous(it, V::size())) {
+        store_interleaved(v, std::addressof(*it));
+    } else {
+        for (std::size_t i = 0; i < V::size(); ++i) {
+            *(it + i) = extract(v, i);
+        }
+    }
+}
+}  // namespace Detail
+
 #ifdef DOXYGEN
 /**
  * \ingroup Utilities
@@ -74,12 +110,12 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     for (; last - first >= int(V::Size); first += V::Size) {
         V tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
     }
     for (; first != last; ++first) {
         V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
     }
     return f;
@@ -96,15 +132,15 @@ simd_for_each(InputIt first, InputIt last, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     for (; last - first >= int(V::Size); first += V::Size) {
         V tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+        Detail::store_elements(tmp, first);
     }
     for (; first != last; ++first) {
         V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+        Detail::store_elements(tmp, first);
     }
     return f;
 }
@@ -123,12 +159,12 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
         V tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
     }
     for (; len != 0; --len, ++first) {
         V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
     }
     return f;
@@ -146,15 +182,15 @@ simd_for_each_n(InputIt first, std::size_t count, UnaryFunction f)
     typedef simdize<ValueType, 1> V1;
     for (; len >= int(V::size()); len -= V::Size, first += V::Size) {
         V tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+        Detail::store_elements(tmp, first);
     }
     for (; len != 0; --len, ++first) {
         V1 tmp;
-        load_interleaved(tmp, std::addressof(*first));
+        Detail::load_elements(tmp, first);
         f(tmp);
-        store_interleaved(tmp, std::addressof(*first));
+        Detail::store_elements(tmp, first);
     }
     return f;
 }
-- 
2.43.0


From 7092297723f7e1b6509312da2affc057c0d35ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 47/64] fix: subscripts of vector iterators ignored the
 position of the iterator

it[n] has to be *(it + n).
---
 Vc/common/iterators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/iterators.h b/Vc/common/iterators.h
index fe9ece4..d5d7fea 100644
--- a/Vc/common/iterators.h
+++ b/Vc/common/iterators.h
@@ -55,7 +55,7 @@ public:
     using difference_type = int;
     using reference = value_type;
     Vc_ALWAYS_INLINE reference operator*() const { return v()[i()]; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i2]; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return v()[i() + i2]; }
 
 private:
     Vc_INTRINSIC V &v() const { return *static_cast<const Iterator<V> *>(this)->v; }
@@ -73,7 +73,7 @@ public:
     using difference_type = int;
     using reference = Vc::Detail::ElementReference<V, IteratorBase>;
     Vc_ALWAYS_INLINE reference operator*() const { return {*v(), i()}; }
-    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i2}; }
+    Vc_ALWAYS_INLINE reference operator[](difference_type i2) const { return {*v(), i() + i2}; }
 
 private:
     Vc_INTRINSIC V *v() const { return static_cast<const Iterator<V> *>(this)->v; }
-- 
2.43.0


From 6c158c8783b6f6dc9e59e5194ee7a8615a8a5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 48/64] fix: Vc::array::swap did not compile

The exception specification has to use the noexcept operator, and std::swap
needs to take the arrays by non-const reference.
---
 Vc/array | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Vc/array b/Vc/array
index 0ba1e2c..8e3255a 100644
--- a/Vc/array
+++ b/Vc/array
@@ -102,7 +102,8 @@ template <class T, size_t Size> struct array {
 
     // No explicit construct/copy/destroy for aggregate type
     void fill(const value_type& u_) { std::fill_n(elems_, Size, u_); }
-    void swap(array& a_) noexcept(std::swap(std::declval<T &>(), std::declval<T &>()))
+    void swap(array& a_) noexcept(
+        noexcept(std::swap(std::declval<T &>(), std::declval<T &>())))
     {
         std::swap_ranges(elems_, elems_ + Size, a_.elems_);
     }
@@ -271,8 +272,8 @@ inline
     typename enable_if<is_same<void, decltype(swap(declval<T&>(), declval<T&>()))>::value,
                        void>::type
 #endif
-    swap(const Vc::array<T, Size>& x_,
-         const Vc::array<T, Size>& y_) noexcept(swap(declval<T&>(), declval<T&>()))
+    swap(Vc::array<T, Size>& x_,
+         Vc::array<T, Size>& y_) noexcept(noexcept(x_.swap(y_)))
 {
     x_.swap(y_);
 }
-- 
2.43.0


From 86f28fa5c54716dae1bed3abd28e3c78e669b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 49/64] fix: Vc::span construction from two pointers and
 comparisons did not compile

distance, equal, and lexicographical_compare are not found by ADL for pointers.
---
 Vc/common/span.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index 1687834..ac9e0ee 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -13,6 +13,7 @@
 #ifndef VC_COMMON_SPAN_H_
 #define VC_COMMON_SPAN_H_
 
+#include <algorithm>    // for equal, lexicographical_compare
 #include <array>        // for array
 #include <cstddef>      // for ptrdiff_t
 #include <cstddef>      // for std::byte
@@ -161,7 +162,7 @@ public:
     {
         (void)_l;
         Vc_ASSERT(((void)"size mismatch in span's constructor (ptr, ptr)",
-                   Extent == distance(_f, _l)));
+                   Extent == std::distance(_f, _l)));
     }
 
     Vc_CONSTEXPR span(element_type (&_arr)[Extent]) noexcept : data_{_arr} {}
@@ -363,7 +364,7 @@ public:
     Vc_CONSTEXPR span& operator=(const span&) noexcept = default;
 
     Vc_CONSTEXPR span(pointer _ptr, index_type _count) : data_{_ptr}, size_{_count} {}
-    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{distance(_f, _l)} {}
+    Vc_CONSTEXPR span(pointer _f, pointer _l) : data_{_f}, size_{std::distance(_f, _l)} {}
 
     template <size_t Sz>
     inline Vc_CONSTEXPR span(element_type (&_arr)[Sz]) noexcept : data_{_arr}, size_{Sz}
@@ -541,7 +542,7 @@ private:
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator==(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return lhs.size() == rhs.size() && std::equal(lhs.begin(), lhs.end(), rhs.begin());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
@@ -553,7 +554,7 @@ Vc_CONSTEXPR bool operator!=(const span<T1, Extent1>& lhs, const span<T2, Extent
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
 Vc_CONSTEXPR bool operator<(const span<T1, Extent1>& lhs, const span<T2, Extent2>& rhs)
 {
-    return lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
+    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 }
 
 template <class T1, ptrdiff_t Extent1, class T2, ptrdiff_t Extent2>
-- 
2.43.0


From fe08879cec624a491405c67641386fd4da10ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 50/64] fix: Vc::span was not constructible from containers
 before C++17

std::data and std::size do not exist in C++11/14. Use the local replacements,
like the constructors do.
---
 Vc/common/span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index ac9e0ee..e5b6335 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -108,11 +108,11 @@ struct _is_span_compatible_container<
         // is_array_v<Container> is false,
         typename std::enable_if<!std::is_array<T>::value, std::nullptr_t>::type,
         // data(cont) and size(cont) are well formed
-        decltype(data(std::declval<T>())), decltype(size(std::declval<T>())),
+        decltype(_std_data(std::declval<T>())), decltype(_std_size(std::declval<T>())),
         // remove_pointer_t<decltype(data(cont))>(*)[] is convertible to ElementType(*)[]
         typename std::enable_if<
             std::is_convertible<typename std::remove_pointer<decltype(
-                                    data(std::declval<T&>()))>::type (*)[],
+                                    _std_data(std::declval<T&>()))>::type (*)[],
                                 ElementType (*)[]>::value,
             std::nullptr_t>::type>> : public std::true_type {
 };
-- 
2.43.0


From fc3af3abb37826e91ac4fdd81c88abb35e6c8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 51/64] fix: makeContainer wrote outside of the container for
 an empty list

---
 Vc/common/makeContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index 4065985..d5286a4 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -51,6 +51,9 @@ namespace Vc_VERSIONED_NAMESPACE
             static inline C help(std::initializer_list<T> list) {
                 const std::size_t size = (list.size() + (V::Size - 1)) / V::Size;
                 C v(size);
+                if (size == 0) {
+                    return v;
+                }
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-- 
2.43.0


From 734e896cf12c145328857da555c39706e2d097f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 52/64] fix: makeContainer<std::array> left the remaining
 values uninitialized

They are documented to be zero-initialized.
---
 Vc/common/makeContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/makeContainer.h b/Vc/common/makeContainer.h
index d5286a4..5f52015 100644
--- a/Vc/common/makeContainer.h
+++ b/Vc/common/makeContainer.h
@@ -89,7 +89,7 @@ namespace Vc_VERSIONED_NAMESPACE
             static inline C help(std::initializer_list<T> list) {
                 Vc_ASSERT(N == list.size())
                 Vc_ASSERT(size == (list.size() + (V::Size - 1)) / V::Size)
-                C v;
+                C v{};
                 auto containerIt = v.begin();
                 auto init = std::begin(list);
                 const auto initEnd = std::end(list);
-- 
2.43.0


From 8e323f9f17c4d5724f39ce612552bf005ae594cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 53/64] fix: gathers of array members from const data did not
 compile

data[indexes][&S::array][i] failed a static assertion if data is const.
---
 Vc/common/subscript.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Vc/common/subscript.h b/Vc/common/subscript.h
index 1ccf1b4..1133e8c 100644
--- a/Vc/common/subscript.h
+++ b/Vc/common/subscript.h
@@ -347,8 +347,10 @@ public:
               // 20/16)
               std::ratio_multiply<Scale, std::ratio<sizeof(S), sizeof(U)>>>
     {
-        static_assert(std::is_same<Traits::decay<decltype(m_address->*member)>,
-                                   Traits::decay<U>>::value,
+        // (decay cannot be used here: it turns a const array into a pointer to const)
+        static_assert(std::is_same<typename std::remove_cv<typename std::remove_reference<
+                                       decltype(m_address->*member)>::type>::type,
+                                   typename std::remove_cv<U>::type>::value,
                       "Type mismatch that should be impossible.");
         // TODO: check whether scale really works for unions correctly
         return {&(m_address->*member), m_indexes};
-- 
2.43.0


From 731349e275bdf190524f2824b673e68433479c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 54/64] fix: CpuId took the L3 associativity of AMD CPUs from
 the L2 register

---
 src/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index e93a1cb..9902e6f 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -198,7 +198,7 @@ void CpuId::init()
         s_L2Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
         s_L3DataLineSize = edx & 0xff;
         s_L3Data = (edx >> 18) * 512 * 1024;
-        s_L3Associativity = CpuIdAmdAssociativityTable((ecx >> 12) & 0xf);
+        s_L3Associativity = CpuIdAmdAssociativityTable((edx >> 12) & 0xf);
         return;
     }
 
-- 
2.43.0


From 9b1a17e80731a28725936d29a033820bb6be9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 55/64] fix: CpuId took cache descriptor 30h (L1 instruction
 cache) for the data cache

---
 src/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 9902e6f..74d4e76 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -380,8 +380,8 @@ void CpuId::interpret(uchar byte, bool *checkLeaf4)
         s_L1Associativity = 8;
         break;
     case 0x30:
-        s_L1Data = 32 * 1024;
-        s_L1DataLineSize = 64;
+        s_L1Instruction = 32 * 1024;
+        s_L1InstructionLineSize = 64;
         s_L1Associativity = 8;
         break;
     case 0x40:
-- 
2.43.0


From 0990c79e36cb6393022ce47b50af673b9d9cb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 56/64] fix: CpuId decoded feature bits from leaves the CPU
 does not implement

---
 src/cpuid.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 74d4e76..7f3d760 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -138,6 +138,7 @@ void CpuId::init()
     uint eax, ebx, ecx, edx;
 
     Vc_CPUID(0);
+    const uint maxLeaf = eax;
     s_ecx0 = ecx;
 
     Vc_CPUID(1);
@@ -174,13 +175,20 @@ void CpuId::init()
     ebx >>= 8;
     s_logicalProcessors = ebx & 0xff;
 
-    Vc_CPUID_C(7, 0);
-    s_processorFeatures7B = ebx;
-    s_processorFeatures7C = ecx;
+    // a CPU that does not implement a leaf returns unrelated data for it
+    if (maxLeaf >= 7) {
+        Vc_CPUID_C(7, 0);
+        s_processorFeatures7B = ebx;
+        s_processorFeatures7C = ecx;
+    }
 
-    Vc_CPUID(0x80000001);
-    s_processorFeatures8C = ecx;
-    s_processorFeatures8D = edx;
+    Vc_CPUID(0x80000000);
+    // (the high bits tell an answer to this leaf from the data of another one)
+    if ((eax & 0xffff0000u) == 0x80000000u && eax >= 0x80000001u) {
+        Vc_CPUID(0x80000001);
+        s_processorFeatures8C = ecx;
+        s_processorFeatures8D = edx;
+    }
 
     if (isAmd()) {
         s_prefetch = cacheLineSize();
-- 
2.43.0


From 2b26fe350dfffa06cf769f695c4bd620a70b2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 57/64] fix: CurrentImplementation omitted XOP and FMA4 unless
 SSE4a was also enabled

---
 Vc/global.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Vc/global.h b/Vc/global.h
index d19dc45..93fcc22 100644
--- a/Vc/global.h
+++ b/Vc/global.h
@@ -598,13 +598,13 @@ using CurrentImplementation = ImplementationT<
 #endif
 #ifdef Vc_IMPL_SSE4a
     + Vc::Sse4aInstructions
+#endif
 #ifdef Vc_IMPL_XOP
     + Vc::XopInstructions
+#endif
 #ifdef Vc_IMPL_FMA4
     + Vc::Fma4Instructions
 #endif
-#endif
-#endif
 #ifdef Vc_IMPL_POPCNT
     + Vc::PopcntInstructions
 #endif
-- 
2.43.0


From ee495a113121399f533612fd61e922f5c0c6fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 58/64] fix: CpuId::processorFamily() misplaced the extended
 family

---
 src/cpuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuid.cpp b/src/cpuid.cpp
index 7f3d760..a1459a0 100644
--- a/src/cpuid.cpp
+++ b/src/cpuid.cpp
@@ -148,13 +148,13 @@ void CpuId::init()
     s_processorFamily = (eax & 0x00000f00) >> 8;
     if (isAmd()) {
         if (s_processorFamily >= 0xf) {
-            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+            const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
             s_processorFamily += processorFamilyExt;
             const uchar processorModelExt = (eax & 0x000f0000) >> 12;
             s_processorModel += processorModelExt;
         }
     } else if (s_processorFamily == 0xf) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
@@ -162,7 +162,7 @@ void CpuId::init()
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
     } else if (s_processorFamily == 0xB) {
-        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 16;
+        const uchar processorFamilyExt = (eax & 0x0ff00000) >> 20;
         s_processorFamily += processorFamilyExt;
         const uchar processorModelExt = (eax & 0x000f0000) >> 12;
         s_processorModel += processorModelExt;
-- 
2.43.0


From cb800ac723c0b262a0bc97146f66d5a4a2ba459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 59/64] fix: as_bytes of dynamic-extent spans compiled with no
 compiler but MSVC

---
 Vc/common/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/common/span.h b/Vc/common/span.h
index e5b6335..6176f7b 100644
--- a/Vc/common/span.h
+++ b/Vc/common/span.h
@@ -521,7 +521,7 @@ public:
 #ifdef __cpp_lib_byte
 // Disable _as_bytes() for older MSVC versions as it leads to a compilation error due to a compiler bug.
 // When parsing the return type, MSVC will instantiate the primary template of span<> and static_assert().
-#if _MSC_VER > 1928
+#if !defined _MSC_VER || _MSC_VER > 1928
     span<const std::byte, dynamic_extent> _as_bytes() const noexcept
     {
         return {reinterpret_cast<const std::byte*>(data()), size_bytes()};
-- 
2.43.0


From b223870662151e272db2d181660a9ceac1102834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 60/64] fix: short division of -32768 by -1 saturated instead
 of wrapping below AVX2 vectors

---
 Vc/sse/vectorhelper.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Vc/sse/vectorhelper.h b/Vc/sse/vectorhelper.h
index ed967b5..bbc4283 100644
--- a/Vc/sse/vectorhelper.h
+++ b/Vc/sse/vectorhelper.h
@@ -447,7 +447,12 @@ namespace SSE
             Vc_OP_(or_) Vc_OP_(and_) Vc_OP_(xor_)
             static Vc_ALWAYS_INLINE Vc_CONST VectorType zero() { return Vc_CAT2(_mm_setzero_, Vc_SUFFIX)(); }
             static Vc_ALWAYS_INLINE Vc_CONST VectorType notMaskedToZero(VectorType a, __m128 mask) { return Vc_CAT2(_mm_and_, Vc_SUFFIX)(_mm_castps_si128(mask), a); }
-            static Vc_ALWAYS_INLINE Vc_CONST __m128i concat(__m128i a, __m128i b) { return _mm_packs_epi32(a, b); }
+            static Vc_ALWAYS_INLINE Vc_CONST __m128i concat(__m128i a, __m128i b) {
+                // sign-extend from 16 bits first: values out of range wrap instead of saturating
+                a = _mm_srai_epi32(_mm_slli_epi32(a, 16), 16);
+                b = _mm_srai_epi32(_mm_slli_epi32(b, 16), 16);
+                return _mm_packs_epi32(a, b);
+            }
             static Vc_ALWAYS_INLINE Vc_CONST __m128i expand0(__m128i x) { return _mm_srai_epi32(_mm_unpacklo_epi16(x, x), 16); }
             static Vc_ALWAYS_INLINE Vc_CONST __m128i expand1(__m128i x) { return _mm_srai_epi32(_mm_unpackhi_epi16(x, x), 16); }
 
-- 
2.43.0


From b7f6dc2390f5089ec8dbb91db103f9fe94e25b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 61/64] fix: simd_for_each took permuted elements for
 contiguous ones

is_contiguous() only compared the address of the last element. With iterators
that address the elements of a chunk in another order the chunk was loaded and
stored from its first element on.
---
 Vc/common/algorithms.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Vc/common/algorithms.h b/Vc/common/algorithms.h
index c025df3..cc2da2c 100644
--- a/Vc/common/algorithms.h
+++ b/Vc/common/algorithms.h
@@ -40,7 +40,12 @@ namespace Detail
  */
 template <class It> inline bool is_contiguous(const It &it, std::size_t n)
 {
-    return std::addressof(*it) + (n - 1) == std::addressof(*(it + (n - 1)));
+    for (std::size_t i = 1; i < n; ++i) {
+        if (std::addressof(*it) + i != std::addressof(*(it + i))) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// \internal Loads the elements starting at \p it into \p v.
-- 
2.43.0


From e7f78d9b5b8bbe5f1d728ddb30e773ad807c7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 62/64] fix: sorted() of vectors with +0 and -0 lost one of the
 zeros

min and max both return their second argument for +0 and -0, so that a
compare-and-exchange step duplicated one of them. Swapping the arguments of max
keeps both.
---
 Vc/common/simdarray.h  |  2 +-
 Vc/sse/vector.tcc      |  2 +-
 src/avx_sorthelper.cpp | 25 ++++++++++++++-----------
 src/sse_sorthelper.cpp |  8 +++++---
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/Vc/common/simdarray.h b/Vc/common/simdarray.h
index c69d83c..f9d84fa 100644
--- a/Vc/common/simdarray.h
+++ b/Vc/common/simdarray.h
@@ -1393,7 +1393,7 @@ public:
         const auto a = data0.sorted();
         const auto b = data1.sorted().reversed();
         const auto lo = Vc::min(a, b);
-        const auto hi = Vc::max(a, b);
+        const auto hi = Vc::max(b, a);  // swapped to keep both +0 and -0
         return {lo.sorted(), hi.sorted()};
     }
 
diff --git a/Vc/sse/vector.tcc b/Vc/sse/vector.tcc
index 716b0bc..9119bb6 100644
--- a/Vc/sse/vector.tcc
+++ b/Vc/sse/vector.tcc
@@ -620,7 +620,7 @@ inline Vc_CONST SSE::double_v sorted(SSE::double_v x_)
 {
     const __m128d x = x_.data();
     const __m128d y = _mm_shuffle_pd(x, x, _MM_SHUFFLE2(0, 1));
-    return _mm_unpacklo_pd(_mm_min_sd(x, y), _mm_max_sd(x, y));
+    return _mm_unpacklo_pd(_mm_min_pd(x, y), _mm_max_pd(y, x));
 }
 }  // namespace Detail
 template <typename T>
diff --git a/src/avx_sorthelper.cpp b/src/avx_sorthelper.cpp
index 78d2ad5..2ab48ea 100644
--- a/src/avx_sorthelper.cpp
+++ b/src/avx_sorthelper.cpp
@@ -311,37 +311,39 @@ Vc_CONST AVX2::uint_v sorted<CurrentImplementation::current()>(AVX2::uint_v x_)
 template <>
 Vc_CONST AVX2::float_v sorted<CurrentImplementation::current()>(AVX2::float_v x_)
 {
+    // min/max return their second argument for +0 and -0 (and for NaN). With the
+    // arguments swapped for max both elements are kept.
     __m256 hgfedcba = x_.data();
     const __m128 hgfe = AVX::hi128(hgfedcba);
     const __m128 dcba = AVX::lo128(hgfedcba);
     __m128 l = _mm_min_ps(hgfe, dcba); // ↓hd ↓gc ↓fb ↓ea
-    __m128 h = _mm_max_ps(hgfe, dcba); // ↑hd ↑gc ↑fb ↑ea
+    __m128 h = _mm_max_ps(dcba, hgfe); // ↑hd ↑gc ↑fb ↑ea
 
     __m128 x = _mm_unpacklo_ps(l, h); // ↑fb ↓fb ↑ea ↓ea
     __m128 y = _mm_unpackhi_ps(l, h); // ↑hd ↓hd ↑gc ↓gc
 
     l = _mm_min_ps(x, y); // ↓(↑fb,↑hd) ↓hfdb ↓(↑ea,↑gc) ↓geca
-    h = _mm_max_ps(x, y); // ↑hfdb ↑(↓fb,↓hd) ↑geca ↑(↓ea,↓gc)
+    h = _mm_max_ps(y, x); // ↑hfdb ↑(↓fb,↓hd) ↑geca ↑(↓ea,↓gc)
 
-    x = _mm_min_ps(l, Reg::permute<X2, X2, X0, X0>(h)); // 2(hfdb) 1(hfdb) 2(geca) 1(geca)
-    y = _mm_max_ps(h, Reg::permute<X3, X3, X1, X1>(l)); // 4(hfdb) 3(hfdb) 4(geca) 3(geca)
+    x = _mm_min_ps(Reg::permute<X2, X2, X0, X0>(h), l); // 2(hfdb) 1(hfdb) 2(geca) 1(geca)
+    y = _mm_max_ps(Reg::permute<X3, X3, X1, X1>(l), h); // 4(hfdb) 3(hfdb) 4(geca) 3(geca)
 
     __m128 a = _mm_castpd_ps(_mm_unpackhi_pd(_mm_castps_pd(x), _mm_castps_pd(y))); // a3 >= a2 >= a1 >= a0
     __m128 b = Reg::shuffle<Y0, Y1, X0, X1>(y, x); // b3 <= b2 <= b1 <= b0
 
     // merge
     l = _mm_min_ps(a, b); // ↓a3b3 ↓a2b2 ↓a1b1 ↓a0b0
-    h = _mm_max_ps(a, b); // ↑a3b3 ↑a2b2 ↑a1b1 ↑a0b0
+    h = _mm_max_ps(b, a); // ↑a3b3 ↑a2b2 ↑a1b1 ↑a0b0
 
     a = _mm_unpacklo_ps(l, h); // ↑a1b1 ↓a1b1 ↑a0b0 ↓a0b0
     b = _mm_unpackhi_ps(l, h); // ↑a3b3 ↓a3b3 ↑a2b2 ↓a2b2
     l = _mm_min_ps(a, b);      // ↓(↑a1b1,↑a3b3) ↓a1b3 ↓(↑a0b0,↑a2b2) ↓a0b2
-    h = _mm_max_ps(a, b);      // ↑a3b1 ↑(↓a1b1,↓a3b3) ↑a2b0 ↑(↓a0b0,↓a2b2)
+    h = _mm_max_ps(b, a);      // ↑a3b1 ↑(↓a1b1,↓a3b3) ↑a2b0 ↑(↓a0b0,↓a2b2)
 
     a = _mm_unpacklo_ps(l, h); // ↑a2b0 ↓(↑a0b0,↑a2b2) ↑(↓a0b0,↓a2b2) ↓a0b2
     b = _mm_unpackhi_ps(l, h); // ↑a3b1 ↓(↑a1b1,↑a3b3) ↑(↓a1b1,↓a3b3) ↓a1b3
     l = _mm_min_ps(a, b); // ↓(↑a2b0,↑a3b1) ↓(↑a0b0,↑a2b2,↑a1b1,↑a3b3) ↓(↑(↓a0b0,↓a2b2),↑(↓a1b1,↓a3b3)) ↓a0b3
-    h = _mm_max_ps(a, b); // ↑a3b0 ↑(↓(↑a0b0,↑a2b2),↓(↑a1b1,↑a3b3)) ↑(↓a0b0,↓a2b2,↓a1b1,↓a3b3) ↑(↓a0b2,↓a1b3)
+    h = _mm_max_ps(b, a); // ↑a3b0 ↑(↓(↑a0b0,↑a2b2),↓(↑a1b1,↑a3b3)) ↑(↓a0b0,↓a2b2,↓a1b1,↓a3b3) ↑(↓a0b2,↓a1b3)
 
     return AVX::concat(_mm_unpacklo_ps(l, h), _mm_unpackhi_ps(l, h));
 }
@@ -414,15 +416,16 @@ Vc_CONST AVX2::double_v sorted<CurrentImplementation::current()>(AVX2::double_v
     // max(max(min(ac),min(bd)), min(max(ac),max(bd)))
     // min(max(min(ac),min(bd)), min(max(ac),max(bd)))
     // min(min(ac), min(bd))
+    // (max gets its arguments swapped to keep both +0 and -0, see float_v)
     __m128d l = _mm_min_pd(AVX::lo128(dcba), AVX::hi128(dcba)); // min(bd) min(ac)
-    __m128d h = _mm_max_pd(AVX::lo128(dcba), AVX::hi128(dcba)); // max(bd) max(ac)
+    __m128d h = _mm_max_pd(AVX::hi128(dcba), AVX::lo128(dcba)); // max(bd) max(ac)
     __m128d h0_l0 = _mm_unpacklo_pd(l, h);
     __m128d h1_l1 = _mm_unpackhi_pd(l, h);
     l = _mm_min_pd(h0_l0, h1_l1);
-    h = _mm_max_pd(h0_l0, h1_l1);
+    h = _mm_max_pd(h1_l1, h0_l0);
     return AVX::concat(
-        _mm_min_pd(l, Reg::permute<X0, X0>(h)),
-        _mm_max_pd(h, Reg::permute<X1, X1>(l))
+        _mm_min_pd(Reg::permute<X0, X0>(h), l),
+        _mm_max_pd(Reg::permute<X1, X1>(l), h)
             );
     // extract: 1 cycle
     // min/max: 4 cycles
diff --git a/src/sse_sorthelper.cpp b/src/sse_sorthelper.cpp
index 353c326..cd8c4c6 100644
--- a/src/sse_sorthelper.cpp
+++ b/src/sse_sorthelper.cpp
@@ -168,20 +168,22 @@ template <> Vc_CONST SSE::uint_v sorted<CurrentImplementation::current()>(SSE::u
 template <>
 Vc_CONST SSE::float_v sorted<CurrentImplementation::current()>(SSE::float_v x_)
 {
+    // min/max return their second argument for +0 and -0 (and for NaN). With the
+    // arguments swapped for max both elements are kept.
     __m128 x = x_.data();
     __m128 y = _mm_shuffle_ps(x, x, _MM_SHUFFLE(2, 3, 0, 1));
     __m128 l = _mm_min_ps(x, y);
-    __m128 h = _mm_max_ps(x, y);
+    __m128 h = _mm_max_ps(y, x);
     x = _mm_unpacklo_ps(l, h);
     y = _mm_unpackhi_ps(h, l);
 
     l = _mm_min_ps(x, y);
-    h = _mm_max_ps(x, y);
+    h = _mm_max_ps(y, x);
     x = _mm_unpacklo_ps(l, h);
     y = _mm_movehl_ps(x, x);
 
     l = _mm_min_ps(x, y);
-    h = _mm_max_ps(x, y);
+    h = _mm_max_ps(y, x);
     return _mm_unpacklo_ps(l, h);
     // X         __m128 k = _mm_cmpgt_ps(x, y);
     // X         k = _mm_shuffle_ps(k, k, _MM_SHUFFLE(2, 2, 0, 0));
-- 
2.43.0


From 9982539fd76c640456ff46b7fc5115adcf904788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 63/64] fix: AVX2 without BMI2 did not compile uses of 16-bit
 masks

mask_to_int<16> was only defined with BMI2 instructions.
---
 Vc/avx/detail.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Vc/avx/detail.h b/Vc/avx/detail.h
index e468631..9557eda 100644
--- a/Vc/avx/detail.h
+++ b/Vc/avx/detail.h
@@ -1307,6 +1307,11 @@ template <> Vc_INTRINSIC Vc_CONST int mask_to_int<16>(__m256i k)
 {
     return _pext_u32(movemask(k), 0x55555555u);
 }
+#else
+template <> Vc_INTRINSIC Vc_CONST int mask_to_int<16>(__m256i k)
+{
+    return _mm_movemask_epi8(_mm_packs_epi16(AVX::lo128(k), AVX::hi128(k)));
+}
 #endif
 template <> Vc_INTRINSIC Vc_CONST int mask_to_int<32>(__m256i k)
 {
-- 
2.43.0


From edd43ef2d585966a5afa79bccb89daf1dd50305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:46 +0000
Subject: [PATCH 64/64] fix: minIndex() of AVX float vectors returned the bits
 of a float as index

---
 Vc/avx/vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Vc/avx/vector.tcc b/Vc/avx/vector.tcc
index 60eb854..346fc8b 100644
--- a/Vc/avx/vector.tcc
+++ b/Vc/avx/vector.tcc
@@ -557,7 +557,7 @@ template <> Vc_INTRINSIC std::pair<AVX2::float_v, int> AVX2::float_v::minIndex()
 
     idx = _mm256_blendv_ps(idy, idx, less);
 
-    const auto index = _mm_cvtsi128_si32(AVX::avx_cast<__m128i>(idx));
+    const int index = _mm_cvttss_si32(AVX::lo128(idx));
 #ifdef Vc_GNU_ASM
     __asm__ __volatile__(""); // help GCC to order the instructions better
 #endif
-- 
2.43.0

