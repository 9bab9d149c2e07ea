From 10314acc2cbb52d34f505ec238559685cdb8fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 01/84] fix: index elements rather than native vectors in x86
 mask and masked copies

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..0d4e442 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From 2534a3257694e3f3d88b22d04d839a96bc94d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 02/84] fix: construct x86 simd and simd_mask from native
 arrays and spans

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0d4e442..0589819 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -596,9 +596,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 872322baad1d348e0cf69f5f3b531b667fd2f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 03/84] fix: allow vector-aligned loads through pointers to
 non-const

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0589819..003c303 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -649,7 +649,7 @@ namespace dpm
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
+					const auto *src = std::to_address(mem);
 					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
-- 
2.43.0


From be2f018fe5e09f4f6ddbe3ae50e87941cde10228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 04/84] fix: keep aligned copies of x86 simd vectors within the
 first size() elements

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 003c303..6b893bf 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -650,7 +650,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto *src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -664,7 +664,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
-- 
2.43.0


From 3b7bb7dfa3de4ac15617a0f31735da387a20d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 05/84] fix: truncate floating-point elements converted to
 integers by aligned copies

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6b893bf..6094bfc 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -646,7 +646,7 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type) && (std::integral<U> || std::floating_point<T>))
 				if (!std::is_constant_evaluated())
 				{
 					const auto *src = std::to_address(mem);
@@ -660,7 +660,7 @@ namespace dpm
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<T, U>
 		{
 			std::size_t i = 0;
-			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
+			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type) && (std::integral<T> || std::floating_point<U>))
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-- 
2.43.0


From c1843ba7e25204e08fd6edc82b68d960c7b6b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 06/84] fix: round conversions of 32-bit unsigned integers to
 float only once

---
 dpm/detail/x86/cvt.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..34ee998 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -37,9 +37,9 @@ namespace dpm::detail
 
 	[[nodiscard]] DPM_FORCEINLINE __m128 cvt_u32_f32(__m128i x) noexcept
 	{
-		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(1)));
-		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 1));
-		return _mm_add_ps(_mm_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(0xffff)));
+		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 16));
+		return _mm_add_ps(_mm_mul_ps(b, _mm_set1_ps(0x1'0000)), a); /* (x >> 16) * 0x10000 + (x & 0xffff), only the sum is rounded */
 	}
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvt_f32_u32(__m128 x) noexcept
 	{
@@ -235,9 +235,9 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256 cvt_u32_f32(__m256i x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(1)));
-		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 1));
-		return _mm256_add_ps(_mm256_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(0xffff)));
+		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 16));
+		return _mm256_add_ps(_mm256_mul_ps(b, _mm256_set1_ps(0x1'0000)), a); /* (x >> 16) * 0x10000 + (x & 0xffff), only the sum is rounded */
 #else
 		const auto l = cvt_u32_f32(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u32_f32(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 28a9bb245dac9a9265bb35cb7a0ef1c637fee089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 07/84] fix: keep the high halves in the SSE4.1 conversion of
 64-bit signed integers to double

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 34ee998..500dbe6 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From 9eab8dffa74b888d4f645cd0a38f00e3b881de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 08/84] fix: shift in the requested direction in compound
 shifts of simd vectors

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..567e47c 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -956,10 +956,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From 7cc5a765606867da557c30163fff1280705a36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 09/84] fix: shift right in the element-wise fallback of the
 x86 operator>>

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6094bfc..7098fa7 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1122,7 +1122,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From 5521e62bb5b38ba291ae171f359c09d0b9b9e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 10/84] fix: preserve the sign when shifting x86 vectors of
 signed integers right

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 7098fa7..1e481aa 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1107,11 +1107,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1152,11 +1152,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From c95291925baf72fd4d0dee8bdc85e0ef2f8e894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 11/84] fix: correct generic logical and arithmetic constant
 shifts

---
 dpm/detail/generic/type.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 567e47c..71bc2f4 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -626,26 +626,17 @@ namespace dpm
 		template<std::size_t N, std::unsigned_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
+			return static_cast<T>(x >> N);
 		}
 		template<std::size_t N, std::signed_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
+			return static_cast<T>(lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x)));
 		}
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N != T{-1})
-				return x < 0 ? ~(~x >> N) : x >> N;
-			else
-				return x >> N;
+			return static_cast<T>(x < 0 ? ~(~x >> N) : x >> N);
 		}
 	}
 
-- 
2.43.0


From 00ed37a4c47e6c6c34d20a81e836ee2a80eda766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 12/84] fix: convert constant-evaluated x86 shifts to vectors
 of the right width

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 1e481aa..48d1ee6 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1302,8 +1302,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1318,8 +1318,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1335,8 +1335,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1351,8 +1351,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 7b1c935897fddca8ff7f598d6e1a701fcf82d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 13/84] fix: carry bits between the halves in the 64-bit
 arithmetic shift emulation

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From 00d870ce0af2b39e006de14d3a770bda8d59b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 14/84] fix: increment and decrement generic simd vectors by an
 element of their own type

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 71bc2f4..84d9df0 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -715,10 +715,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + static_cast<T>(1); }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - static_cast<T>(1); }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From 04fc64a2c9a92789c592696dd75fc214c4175c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 15/84] fix: do not keep references to temporaries in the
 generic minmax

---
 dpm/detail/generic/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 84d9df0..4906a7f 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1191,9 +1191,9 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
-			result[0][i] = min;
-			result[1][i] = max;
+			const T ai = a[i], bi = b[i];
+			result[0][i] = std::min(ai, bi);
+			result[1][i] = std::max(ai, bi);
 		}
 		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
 	}
@@ -1204,9 +1204,9 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
-			result[0][i] = min;
-			result[1][i] = max;
+			const T ai = a[i], bi = b;
+			result[0][i] = std::min(ai, bi);
+			result[1][i] = std::max(ai, bi);
 		}
 		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
 	}
-- 
2.43.0


From cac9b0260bd514d4b7118bae56cb306cabe1712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 16/84] fix: select the same elements as std::min and std::max
 for NaN and signed zeros on x86

---
 dpm/detail/x86/mbase.hpp  |  4 ++--
 dpm/detail/x86/minmax.hpp | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..731b795 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -343,7 +343,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a, b);
+			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a, b);
 			return result;
 		}
 	}
@@ -397,7 +397,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a);
+			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a);
 			return result;
 		}
 	}
diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..eac9fa3 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -8,16 +8,17 @@
 
 namespace dpm::detail
 {
+	/* Hardware min & max return the second operand if either one is NaN or if both are zero, std::min & std::max return the first one. */
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128 min(__m128 a, __m128 b) noexcept { return _mm_min_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128 min(__m128 a, __m128 b) noexcept { return _mm_min_ps(b, a); }
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128 max(__m128 a, __m128 b) noexcept { return _mm_max_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128 max(__m128 a, __m128 b) noexcept { return _mm_max_ps(b, a); }
 
 #ifdef DPM_HAS_SSE2
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128d min(__m128d a, __m128d b) noexcept { return _mm_min_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128d min(__m128d a, __m128d b) noexcept { return _mm_min_pd(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m128d max(__m128d a, __m128d b) noexcept { return _mm_max_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m128d max(__m128d a, __m128d b) noexcept { return _mm_max_pd(b, a); }
 
 	template<unsigned_integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i min(__m128i a, __m128i b) noexcept { return _mm_min_epu8(a, b); }
@@ -50,13 +51,13 @@ namespace dpm::detail
 
 #ifdef DPM_HAS_AVX
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256 min(__m256 a, __m256 b) noexcept { return _mm256_min_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256 min(__m256 a, __m256 b) noexcept { return _mm256_min_ps(b, a); }
 	template<std::same_as<float> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256 max(__m256 a, __m256 b) noexcept { return _mm256_max_ps(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256 max(__m256 a, __m256 b) noexcept { return _mm256_max_ps(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256d min(__m256d a, __m256d b) noexcept { return _mm256_min_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256d min(__m256d a, __m256d b) noexcept { return _mm256_min_pd(b, a); }
 	template<std::same_as<double> T>
-	[[nodiscard]] DPM_FORCEINLINE __m256d max(__m256d a, __m256d b) noexcept { return _mm256_max_pd(a, b); }
+	[[nodiscard]] DPM_FORCEINLINE __m256d max(__m256d a, __m256d b) noexcept { return _mm256_max_pd(b, a); }
 #endif
 
 #ifdef DPM_HAS_AVX2
-- 
2.43.0


From 91f12b2cf39c4453242d2401c2faefe1486d98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 17/84] fix: provide 256-bit integer minimum and maximum
 without AVX2

---
 dpm/detail/x86/minmax.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index eac9fa3..854a6be 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -85,6 +85,19 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<integral_of_size<1> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<integral_of_size<2> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
+	template<integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<integral_of_size<4> T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From 69f111a4c10c0220c6e777e9357b5f1fdc2897e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 18/84] fix: negate booleans in the bitwise NOT of generic
 masks

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 4906a7f..4a12a50 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From bf3c086398b2431cfe6247799b8c8ba9b606a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 19/84] fix: compare against the mask size in generic blends

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 4a12a50..ba85e08 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -290,7 +290,7 @@ namespace dpm
 	[[nodiscard]] constexpr simd_mask<T, Abi> blend(const simd_mask<T, Abi> &m, const simd_mask<T, Abi> &a, const simd_mask<T, Abi> &b) noexcept
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
-		for (std::size_t i = 0; i < m.size; ++i)
+		for (std::size_t i = 0; i < m.size(); ++i)
 			result[i] = m[i] ? a[i] : b[i];
 		return {result.data(), element_aligned};
 	}
@@ -678,7 +678,7 @@ namespace dpm
 	[[nodiscard]] constexpr simd<T, Abi> blend(const simd_mask<T, Abi> &m, const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
-		for (std::size_t i = 0; i < m.size; ++i)
+		for (std::size_t i = 0; i < m.size(); ++i)
 			result[i] = m[i] ? a[i] : b[i];
 		return {result.data(), vector_aligned};
 	}
-- 
2.43.0


From 0e1fac3310b43b8d1766fa52bcc8d545707de7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 20/84] fix: evaluate the logical AND of x86 masks

---
 dpm/detail/x86/type.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 48d1ee6..edb2428 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -344,8 +344,7 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
 			detail::vectorize([z = zero](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_not(detail::bit_or(detail::mask_eq<T>(a, z), detail::mask_eq<T>(b, z)));
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From cf99c098bf502e73a85f6af0cf5c4fedfd8d856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 21/84] fix: constrain the x86 none_of to masks with an x86 ABI

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index edb2428..d613969 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -428,7 +428,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From 4155867835944e848a8b52a93894f69946483653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 22/84] fix: count the last true element of x86 masks from the
 last element

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index d613969..fc35ab1 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -535,7 +535,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -548,7 +548,7 @@ namespace dpm
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
 				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				if (bits) return (std::min(j * native_extent, mask_t::size()) - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From ad6b60f0077f1120e814bb96f8e3bf0eb7edd68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 23/84] fix: do not sign-extend the 32-bit AVX2 mask of 8- and
 16-bit elements

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..5cf95d3 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 1f2f4ae8a3c9d4174c5f7ad2212d93c00f7c7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 24/84] fix: blend the whole upper half when it is past the
 last element without AVX2

---
 dpm/detail/x86/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..cd972c8 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -593,14 +593,14 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto h = n <= 16 ? _mm256_extractf128_si256(b, 1) : maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto h = n <= 8 ? _mm256_extractf128_si256(b, 1) : maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From 24271920712b633a769c204f7af4aae2dc509f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 25/84] fix: reduce all elements of the lower half in generic
 reductions

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index ba85e08..13afb20 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From b589e5fb64e4923e59e0e38b1a6149693484277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 26/84] fix: return the blended vector's own type from the
 64-bit maskblend

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index cd972c8..78e164a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 1bd6663e53ca37cc29a0e073ac0ffa8feae64d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 27/84] fix: convert to a packed simd vector in
 constant-evaluated reduce_min and reduce_max

---
 dpm/detail/x86/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index fc35ab1..497673a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1469,7 +1469,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1478,7 +1478,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1488,7 +1488,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1497,7 +1497,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1507,7 +1507,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1516,7 +1516,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1525,7 +1525,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1534,7 +1534,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1545,7 +1545,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1554,7 +1554,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From c9d655e87469eb415ed9c508070bbf7306adbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 28/84] fix: use the generic reduction for x86 vectors when
 there is no native one for the operation

---
 dpm/detail/x86/type.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 497673a..4244082 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1414,28 +1414,22 @@ namespace dpm
 			return detail::reduce_impl<size>(x, op);
 		else if constexpr (detail::template_instance<Op, std::plus>)
 			return detail::reduce_add<T, size>(x_data);
-		if constexpr (detail::template_instance<Op, std::multiplies>)
-		{
-			if constexpr (std::floating_point<T>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && std::floating_point<T>)
+			return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 4>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 8>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
-		}
-		if constexpr (std::integral<T>)
-		{
-			if constexpr (detail::template_instance<Op, std::bit_and>)
-				return detail::reduce_and<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_xor>)
-				return detail::reduce_xor<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_or>)
-				return detail::reduce_or<T, size>(x_data);
-		}
+		else if constexpr (detail::template_instance<Op, std::bit_and> && std::integral<T>)
+			return detail::reduce_and<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_xor> && std::integral<T>)
+			return detail::reduce_xor<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_or> && std::integral<T>)
+			return detail::reduce_or<T, size>(x_data);
 		else
 			return detail::reduce_impl<size>(x, op);
 	}
-- 
2.43.0


From 9e246f169a4f169cdac6175c01e327fc05fa09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 29/84] fix: keep infinite elements in reduce_min and
 reduce_max of partially used x86 vectors

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 4244082..8eacf92 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1371,9 +1371,9 @@ namespace dpm
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::floating_point<T> ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max())), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::floating_point<T> ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest())), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 1ab5820d8490499b1b7f6cb603e20e1c93831ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 30/84] fix: provide 256-bit reductions of 8- and 16-bit
 elements with AVX2

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 78e164a..ac37c7f 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -571,6 +571,11 @@ namespace dpm::detail
 		return _mm256_blendv_epi8(a, b, m);
 	}
 
+	template<std::integral T, typename Op> requires(sizeof(T) <= 2)
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
+	{
+		return reduce<T>(op(_mm256_castsi256_si128(v), _mm256_extracti128_si256(v, 1)), op);
+	}
 	template<integral_of_size<4> T, typename Op>
 	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
 	{
-- 
2.43.0


From c68f8dd0ed429815e038a7e84e2e0047bc64c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 31/84] fix: give constant-evaluated shuffles of x86 vectors
 the size of the result

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 8eacf92..386db03 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -727,7 +727,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 4914adc69270905702fe70b78b26debd43e18599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 32/84] fix: do not convert to an integer in the generic rint

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..7233e17 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
@@ -915,7 +915,7 @@ namespace dpm
 	{
 		rebind_simd_t<long, simd<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::lrint(x[i]);
+			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
-- 
2.43.0


From b755f20052c563e24860766357d5a7e0f36c2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 33/84] fix: add the rounding offset in the 256-bit float round

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..47e9992 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -347,7 +347,7 @@ namespace dpm
 		{
 			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
 			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 32c44ae9150a198b5d54df900563df9015f87ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 34/84] fix: round to integer types through the matching
 rounding function and vector conversion

---
 dpm/detail/x86/round.hpp | 280 +--------------------------------------
 1 file changed, 7 insertions(+), 273 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 47e9992..46977e5 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -94,53 +94,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttps_epi32(x);
-			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
-			const auto th = _mm_cvtepi64_ps(ih);
-			const auto tl = _mm_cvtepi64_ps(il);
-			const auto tx = _mm_movelh_ps(tl, th);
-
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
@@ -158,21 +111,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept { *dst = _mm_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvtps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvtps_epi64(x);
-#else
-			const auto tmp = _mm_cvtps_epi32(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<float> T>
 		inline void rint(__m128 x, __m128 *dst) noexcept
 		{
@@ -201,37 +139,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttpd_epi32(x);
-			const auto tx = _mm_cvtepi32_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm_cvttpd_epi64(x);
-			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto zero = bit_xor(tmp, tmp);
-			dst[0] = _mm_unpacklo_epi32(tmp, zero);
-			dst[1] = _mm_unpackhi_epi32(tmp, zero);
-#endif
-		}
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
@@ -249,10 +156,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = _mm_cvtpd_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		inline void rint(__m128d x, __m128d *dst) noexcept
 		{
@@ -287,61 +190,6 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm256_srai_epi32(tmp, 31);
-			const auto ih = std::bit_cast<__m256>(_mm256_unpackhi_epi32(tmp, sign));
-			const auto il = std::bit_cast<__m256>(_mm256_unpacklo_epi32(tmp, sign));
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttps_epi32(x);
-			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-#ifdef DPM_HAS_AVX2
-			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
-#else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
-#endif
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
-			const auto th = _mm256_cvtepi64_ps(ih);
-			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
-
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
-#else
-			__m256i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
@@ -350,18 +198,6 @@ namespace dpm
 			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept { *dst = _mm256_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept
-		{
-			const auto tmp = _mm256_cvtps_epi32(x);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-		}
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 
@@ -370,41 +206,6 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d trunc(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d nearbyint(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { itrunc<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttpd_epi32(x);
-			const auto tx = _mm256_cvtepi32_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm256_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept { round<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm256_cvttpd_epi64(x);
-			const auto tx = _mm256_cvtepi64_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			reinterpret_cast<__m128i *>(dst)[0] = _mm_unpacklo_epi32(tmp, sign);
-			reinterpret_cast<__m128i *>(dst)[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
@@ -413,35 +214,10 @@ namespace dpm
 			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m128i *dst) noexcept { *dst = _mm256_cvtpd_epi32(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { rint<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void rint(__m256d x, __m256d *dst) noexcept { *dst = _mm256_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 #endif
 
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
-
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -536,16 +312,7 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			return static_cast<detail::x86_simd<long, N, A>>(round(x));
 		}
 	}
 	/** Casts elements of vector \a x to `long long` rounding away from zero. */
@@ -559,16 +326,7 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			return static_cast<detail::x86_simd<long long, N, A>>(round(x));
 		}
 	}
 
@@ -599,16 +357,7 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			return static_cast<detail::x86_simd<long, N, A>>(rint(x));
 		}
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
@@ -622,16 +371,7 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
+			return static_cast<detail::x86_simd<long long, N, A>>(rint(x));
 		}
 	}
 
@@ -648,9 +388,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(x);
 			}
 		}
 		/** Casts elements of vector \a x to integer of type \a I rounding away from zero. */
@@ -664,9 +402,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(round(x));
 			}
 		}
 		/** Casts elements of vector \a x to integer of type \a I using current rounding mode with exceptions. */
@@ -680,9 +416,7 @@ namespace dpm
 			}
 			else
 			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
-				return result;
+				return static_cast<detail::x86_simd<I, N, A>>(rint(x));
 			}
 		}
 	}
-- 
2.43.0


From f75c1ff358a0936b5fca98a05d857296597137bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 35/84] fix: compute SSE2 ceil, floor, trunc and round of every
 element value

---
 dpm/detail/x86/cvt.hpp   |  2 +-
 dpm/detail/x86/round.hpp | 30 ++++++++++++++++--------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 500dbe6..40a01f0 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 46977e5..4ab01e5 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -17,14 +17,18 @@ namespace dpm
 	namespace detail
 	{
 #ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		/* Preserve the sign of zero & pass through elements without a fractional part (including infinity and NaN), which may not be representable as i32. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 mask_domain(__m128 x, __m128 result) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
+			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0f));
+			const auto mask = _mm_cmplt_ps(_mm_xor_ps(x, sign_x), _mm_set1_ps(8388608.0f));
+			return _mm_or_ps(_mm_andnot_ps(mask, x), _mm_and_ps(mask, _mm_or_ps(result, sign_x)));
+		}
+		[[nodiscard]] DPM_FORCEINLINE __m128d mask_domain(__m128d x, __m128d result) noexcept
+		{
+			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
+			const auto mask = _mm_cmplt_pd(_mm_xor_pd(x, sign_x), _mm_set1_pd(4503599627370496.0));
+			return _mm_or_pd(_mm_andnot_pd(mask, x), _mm_and_pd(mask, _mm_or_pd(result, sign_x)));
 		}
 #endif
 
@@ -68,7 +72,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
 #endif
 		}
@@ -79,7 +83,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
 #endif
 		}
@@ -105,8 +109,7 @@ namespace dpm
 			*dst = _mm_svml_round_ps(x);
 #else
 			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
+			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), _mm_set1_ps(2.0f));
 			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
 #endif
 		}
@@ -149,9 +152,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
+			const auto tx = trunc_sse2(x);
+			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), _mm_set1_pd(2.0));
 			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
 #endif
 		}
-- 
2.43.0


From 198820958d5e29d349c9975346fc5442419cb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 36/84] fix: honour the rounding mode and keep large elements
 in the SSE2 rint

---
 dpm/detail/x86/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 4ab01e5..2759209 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -125,7 +125,8 @@ namespace dpm
 			const auto abs_x = _mm_xor_ps(x, sign_x);
 
 			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
+			const auto offset = _mm_or_ps(x_offset, sign_x);
+			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(x, offset), offset), sign_x);
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
@@ -169,8 +170,9 @@ namespace dpm
 			const auto abs_x = _mm_xor_pd(x, sign_x);
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			const auto offset = _mm_or_pd(x_offset, sign_x);
+			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(x, offset), offset), sign_x);
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
 
-- 
2.43.0


From 89f7eb5312f660fb25bb1a5a4d6f15f7e9ab8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 37/84] fix: make the generic lrint compile

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 7233e17..156eea5 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -913,9 +913,9 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr rebind_simd_t<long, simd<T, Abi>> lrint(const simd<T, Abi> &x) noexcept
 	{
-		rebind_simd_t<long, simd<T, Abi>> result = {};
+		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::rint(x[i]);
+			result[i] = std::lrint(x[i]);
 		return {result.data(), vector_aligned};
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
-- 
2.43.0


From f25bfb60e34553994b6e92b1867ad44f8bbdf060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 38/84] fix: NaN is not a normal value

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..561753a 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmple_ps(norm_min, x));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmple_pd(norm_min, x));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(norm_min, x, _CMP_LE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(norm_min, x, _CMP_LE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From 0ce65693f861fc3363f5e2c55c6dc71518191b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 39/84] fix: fill whole mask elements in signbit

---
 dpm/detail/x86/class.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 561753a..4cee27f 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -177,7 +177,11 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::masksign<T>(x); }, result, x);
+			detail::vectorize([](auto &res, auto x)
+			{
+				const auto one = detail::fill<decltype(x)>(T{1});
+				res = detail::cmp_lt<T>(detail::bit_or(detail::masksign<T>(x), one), detail::setzero<decltype(x)>()); /* +-1 < 0 */
+			}, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From 46e860020b22203b2ccd3824014970bf3757f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 40/84] fix: equal elements are neither less nor greater in
 islessgreater

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 4cee27f..0720fbf 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -267,7 +267,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From e2cc67b31547212aa55c0e9643a35a4443f69c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:23 +0000
Subject: [PATCH 41/84] fix: do not raise FE_INVALID for quiet NaN in
 isgreater, isless and their siblings

---
 dpm/detail/x86/class.hpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 0720fbf..425678e 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -99,6 +99,30 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d isfinite(__m256d x) noexcept { return isfinite_abs(abs<double>(x)); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d isnormal(__m256d x) noexcept { return isnormal_abs(abs<double>(x)); }
 #endif
+
+		/* Ordered comparisons that do not raise FE_INVALID for quiet NaN operands. */
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V cmp_lt_quiet(V a, V b) noexcept
+		{
+			if constexpr (sizeof(V) == 32)
+				return cmp_lt<T>(a, b);
+			else
+			{
+				const auto nan = isunord(a, b);
+				return bit_andnot(nan, cmp_lt<T>(bit_andnot(nan, a), bit_andnot(nan, b)));
+			}
+		}
+		template<typename T, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V cmp_le_quiet(V a, V b) noexcept
+		{
+			if constexpr (sizeof(V) == 32)
+				return cmp_le<T>(a, b);
+			else
+			{
+				const auto nan = isunord(a, b);
+				return bit_andnot(nan, cmp_le<T>(bit_andnot(nan, a), bit_andnot(nan, b)));
+			}
+		}
 	}
 
 	/** Determines if elements of \a x are NaN. */
@@ -199,7 +223,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt_quiet<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -216,7 +240,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le_quiet<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -233,7 +257,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_gt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt_quiet<T>(a, b); }, result, a, b);
 			return result;
 		}
 	}
@@ -250,7 +274,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_ge<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le_quiet<T>(a, b); }, result, a, b);
 			return result;
 		}
 	}
@@ -267,7 +291,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt_quiet<T>(b, a), detail::cmp_lt_quiet<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From ccd6211cc948609180b50876e9324781a999abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 42/84] fix: return both results of frexp, modf and sincos by
 value

---
 dpm/detail/x86/math_fwd.hpp | 47 -------------------------------------
 1 file changed, 47 deletions(-)

diff --git a/dpm/detail/x86/math_fwd.hpp b/dpm/detail/x86/math_fwd.hpp
index 43b75da..41d7ce6 100644
--- a/dpm/detail/x86/math_fwd.hpp
+++ b/dpm/detail/x86/math_fwd.hpp
@@ -9,52 +9,6 @@
 
 namespace dpm::detail
 {
-	/* On GNU-compatible systems return 2 registers at once. */
-#ifdef __GNUC__
-	template<typename T0, typename T1>
-	using vec2_return_t = T0;
-
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 16)
-	{
-		/* Avoid discarding y */
-#ifdef DPM_HAS_AVX
-		__asm__ ("vmovaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#else
-		__asm__ ("movaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#endif
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 16)
-	{
-		x = f(x);
-		/* Read second variable from xmm1 */
-#ifdef DPM_HAS_AVX
-		__asm__ volatile ("vmovaps %%xmm1, %[out]" : [out] "=xm"(out));
-#else
-		__asm__ volatile ("movaps %%xmm1, %[out]" : [out] "=xm"(out));
-#endif
-		return x;
-	}
-#ifdef DPM_HAS_AVX
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 32)
-	{
-		/* Avoid discarding y */
-		__asm__ ("vmovaps %[y], %%ymm1" : : [y] "x"(y) : "ymm1");
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 32)
-	{
-		x = f(x);
-		/* Read second variable from ymm1 */
-		__asm__ volatile ("vmovaps %%ymm1, %[out]" : [out] "=xm"(out));
-		return x;
-	}
-#endif
-#else
 	template<typename T0, typename T1>
 	using vec2_return_t = std::pair<T0, T1>;
 
@@ -67,5 +21,4 @@ namespace dpm::detail
 		out = res.second;
 		return res.first;
 	}
-#endif
 }
\ No newline at end of file
-- 
2.43.0


From 64054b15efa3d160f4b5243ae8a606fffad90ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 43/84] fix: correct the exponent of denormal elements in frexp

---
 dpm/detail/x86/frexp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..c142c3f 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -19,8 +19,8 @@ namespace dpm::detail
 		const auto is_subn = cmp_eq<I>(exp_x, setzero<Vi>());
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
-		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		/* off = is_subn ? log2(exp_mult) : 0 */
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From 34f8559ee62d3c5da28b8aa4befdac851a15fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 44/84] fix: return INT_MAX for infinite doubles in ilogb

---
 dpm/detail/x86/logb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/logb.cpp b/dpm/detail/x86/logb.cpp
index efca565..a25acfd 100644
--- a/dpm/detail/x86/logb.cpp
+++ b/dpm/detail/x86/logb.cpp
@@ -44,7 +44,7 @@ namespace dpm::detail
 		auto y = eval_ilogb<T, I>(abs_x);
 #ifdef DPM_HANDLE_ERRORS
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGB0)), std::bit_cast<decltype(y)>(cmp_eq<T>(abs_x, setzero<V>())));
-		y = blendv<I>(y, fill<decltype(y)>(std::numeric_limits<I>::max()), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
+		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(std::numeric_limits<int>::max())), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
 #endif
 #ifdef DPM_PROPAGATE_NAN
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGBNAN)), std::bit_cast<decltype(y)>(isunord(x, x)));
-- 
2.43.0


From dc37f5f839c56804eaf4a7ddb09d1415901086b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 45/84] fix: return a zero integral part for fractions in modf

---
 dpm/detail/x86/modf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..9f5780a 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -39,10 +39,10 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = ix & mask ? x2 : x */
+		auto i = blendv<T>(x2, x, bit_or(mask_zero, int_mask));
+		/* i = e < 0 ? x & -0.0 : i */
+		i = blendv<T>(i, fract_ip, fract_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From c119ffd61ca2ffac854036dd14fc865b36b8d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 46/84] fix: pass each 256-bit double of scalbn and ldexp its
 own exponent

---
 dpm/detail/x86/fmanip.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..aae8586 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,26 +128,12 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
-			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
-			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
-			return _mm256_set_m128d(h, l);
+			const auto sign = _mm_srai_epi32(exp[i], 31);
+			return scalbn(x, _mm256_set_m128i(_mm_unpackhi_epi32(exp[i], sign), _mm_unpacklo_epi32(exp[i], sign)));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
-#ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
-#else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
-#endif
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-- 
2.43.0


From 7a082fa865316a9578783beedcb7ea2a9c9d7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 47/84] fix: pass each element of a 256-bit float scalbln its
 own exponent

---
 dpm/detail/x86/fmanip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index aae8586..d542715 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -139,8 +139,8 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(exp[i * 2 + 1]);
+			const auto expl = cvt_i64_i32(exp[i * 2]);
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
-- 
2.43.0


From 547f7461d4f9feb684a98e4323f6efc5433e682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 48/84] fix: saturate large exponents in scalbn, scalbln and
 ldexp

---
 dpm/detail/x86/fmanip.hpp | 23 ++++++++++++++++-------
 dpm/detail/x86/scalbn.cpp |  1 +
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index d542715..760e894 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -28,6 +28,15 @@ namespace dpm
 #endif
 
 #ifdef DPM_HAS_SSE2
+		/* Exponents of greater magnitude give the same results, but cannot be added to the exponent of x. */
+		template<typename I, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V clamp_scalbn(V exp) noexcept
+		{
+			const auto hi = fill<V>(max_scalbn<I>), lo = fill<V>(-max_scalbn<I>);
+			exp = blendv<I>(exp, hi, cmp_gt<I>(exp, hi));
+			return blendv<I>(exp, lo, cmp_gt<I>(lo, exp));
+		}
+
 		[[nodiscard]] vec2_return_t<__m128, __m128i> DPM_API_PUBLIC DPM_MATHFUNC frexp_f32x4(__m128 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m128d, __m128i> DPM_API_PUBLIC DPM_MATHFUNC frexp_f64x2(__m128d x) noexcept;
 
@@ -64,8 +73,8 @@ namespace dpm
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
+			const auto exph = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2 + 1]));
+			const auto expl = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -136,11 +145,11 @@ namespace dpm
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i])));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i * 2 + 1]);
-			const auto expl = cvt_i64_i32(exp[i * 2]);
+			const auto exph = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2 + 1]));
+			const auto expl = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -335,7 +344,7 @@ namespace dpm
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
 			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(exp))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
+			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(std::clamp<long>(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>)))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
 			return result;
 		}
 	}
@@ -354,7 +363,7 @@ namespace dpm
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
 			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(exp))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
+			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(std::clamp<long>(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>)))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
 			return result;
 		}
 	}
diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..3239b53 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -13,6 +13,7 @@ namespace dpm::detail
 	template<typename T, typename V, typename Vi, typename I = int_of_size_t<sizeof(T)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_scalbn(V x, Vi n) noexcept
 	{
+		n = clamp_scalbn<I>(n);
 		const auto ix = std::bit_cast<Vi>(x);
 		const auto x_exp = bit_and(bit_shiftr<I, mant_bits<I>>(ix), fill<Vi>(exp_mask<I>));
 		auto fwd_mask = std::bit_cast<Vi>(cmp_eq<T>(x, setzero<V>()));
-- 
2.43.0


From 6feff34892dc3ff6df1c7296d22fa4bd22de34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 49/84] fix: generic abs returns a vector

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 156eea5..d72a24c 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -31,8 +31,8 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::abs(x[i]);
-		return result;
+			result[i] = static_cast<T>(std::abs(x[i]));
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From 000f95242a821706a9a7b75bf30a58d163504284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 50/84] fix: generic fmin with a scalar does not subscript it

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index d72a24c..c444b93 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-- 
2.43.0


From bff723fd8142352e439a2fb3c4515070e69a186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 51/84] fix: ext::remquo by reference is not ambiguous

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index c444b93..e97684c 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -61,7 +61,7 @@ namespace dpm
 	template<typename T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
-		alignas(simd<int, Abi>) std::array<int, simd_size_v<int, Abi>> quo = {};
+		alignas(simd<int, QAbi>) std::array<int, simd_size_v<T, Abi>> quo = {};
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::remquo(a[i], b[i], quo.data() + i);
@@ -276,8 +276,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<typename T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From ec3a4425b19233d597eb04f2f7d92f3517cb36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 52/84] fix: integer operands of remainder, remquo, fmax, fmin,
 fdim and lerp are promoted

---
 dpm/detail/generic/math.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index e97684c..910651a 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -48,7 +48,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> remainder(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -58,7 +58,7 @@ namespace dpm
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 	 * at least 3 last bits of the division result in elements of \a out_quo. */
-	template<typename T, typename Abi, typename QAbi>
+	template<std::floating_point T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
 		alignas(simd<int, QAbi>) std::array<int, simd_size_v<T, Abi>> quo = {};
@@ -71,7 +71,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -81,7 +81,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -90,7 +90,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vectors \a a and \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -99,7 +99,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -185,7 +185,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -195,7 +195,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -204,7 +204,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -213,7 +213,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using scalar factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, T f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -276,7 +276,7 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi, typename QAbi>
+		template<std::floating_point T, typename Abi, typename QAbi>
 		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
-- 
2.43.0


From 82714c018d1e960617b38786fa0ae40dd612cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 53/84] fix: fmax and fmin of x86 vectors compile

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 731b795..a036cf3 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 65dfd627efac7edb939011f3e1bae5590a43c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 54/84] fix: fdim of equal infinities is zero

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index a036cf3..5660df0 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -343,7 +343,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a, b);
+			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -397,7 +397,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::sub<T>(a, b), detail::setzero<V>()); }, result, a);
+			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From cb923a6e9bcf9bfcdb5dde45539b645a26a862ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 55/84] fix: lerp of x86 vectors compiles

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 5660df0..642a7e9 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From 21512d9e2cb8ec69173cbaff649e19b858553b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 56/84] fix: sign of zero results of fnmsub without FMA

---
 dpm/detail/x86/mbase.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 642a7e9..a2167fe 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -25,8 +25,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128 fnmsub_sse(__m128 a, __m128 b, __m128 c) noexcept
 		{
-			const auto zero = setzero<__m128>();
-			return _mm_sub_ps(zero, fmadd_sse(a, b, c));
+			return _mm_sub_ps(_mm_xor_ps(_mm_mul_ps(a, b), _mm_set1_ps(-0.0f)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 fmadd(__m128 a, __m128 b, __m128 c) noexcept
@@ -82,9 +81,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128d fnmsub_sse(__m128d a, __m128d b, __m128d c) noexcept
 		{
-			const auto tmp = _mm_undefined_pd();
-			const auto zero = _mm_xor_pd(tmp, tmp);
-			return _mm_sub_pd(zero, fmadd_sse(a, b, c));
+			return _mm_sub_pd(_mm_xor_pd(_mm_mul_pd(a, b), _mm_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d fmadd(__m128d a, __m128d b, __m128d c) noexcept
@@ -160,9 +157,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256 fnmsub_avx(__m256 a, __m256 b, __m256 c) noexcept
 		{
-			const auto tmp = _mm256_undefined_ps();
-			const auto zero = _mm256_xor_ps(tmp, tmp);
-			return _mm256_sub_ps(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_ps(_mm256_xor_ps(_mm256_mul_ps(a, b), _mm256_set1_ps(-0.0f)), c);
 		}
 
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fmadd_avx(__m256d a, __m256d b, __m256d c) noexcept
@@ -179,9 +174,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fnmsub_avx(__m256d a, __m256d b, __m256d c) noexcept
 		{
-			const auto tmp = _mm256_undefined_pd();
-			const auto zero = _mm256_xor_pd(tmp, tmp);
-			return _mm256_sub_pd(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_pd(_mm256_xor_pd(_mm256_mul_pd(a, b), _mm256_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 fmadd(__m256 a, __m256 b, __m256 c) noexcept
-- 
2.43.0


From 274e26bc9f7f2139d75972b83fd6613ebb103360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 57/84] fix: absolute value of integers without native
 instructions

---
 dpm/detail/x86/mbase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index a2167fe..113f4c4 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -124,7 +124,7 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
+			const auto t = cmp_gt<T>(setzero<V>(), x);
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From fae581c7de463ef77770838d1de1c3fcbb26669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 58/84] fix: generic ext::sincos passes one element to the
 builtin

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 910651a..24ca862 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From 4828bc7177b8cc9f9e5f8343932d0b6f1b79cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 59/84] fix: order of the coefficients of tan for small
 arguments

---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From 2b68f623948a0fa849e77c471ba2012ee46c36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 60/84] fix: argument reduction of sin, cos and tan for
 arguments outside of the exact range

---
 dpm/detail/fconst.hpp     | 6 ++++++
 dpm/detail/x86/sincos.cpp | 2 +-
 dpm/detail/x86/tan.cpp    | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index b23cd25..d63f10a 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -78,6 +78,12 @@ namespace dpm::detail
 
 	template<std::floating_point T>
 	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
+	/* Leading parts of Pi / 4 must be short enough for their products with the multiple to be exact without FMA. */
+	template<>
+	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
+	/* Largest argument that can be reduced by a multiple of Pi / 4 without loss of precision. */
+	template<std::floating_point T>
+	static constexpr T max_sincos = sizeof(T) == sizeof(double) ? T{0x2000'0000} : T{8192};
 
 	template<std::floating_point T>
 	static constexpr T sincof[] = {
diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..4ae3eca 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,7 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		const auto oflow_mask = cmp_gt<T>(abs_x, fill<V>(max_sincos<T>));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..c5a99d9 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cmp_gt<T>(abs_x, fill<V>(max_sincos<T>))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From d71c2e7dfba376a169e812d68a45309c102e5649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 61/84] fix: poles of log, log2, log10 and log1p are negative
 infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..cfc56bc 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From 380ae300cfcfd92500ec182d107e97a2a9be18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 62/84] fix: normalize subnormal arguments of log and log2

---
 dpm/detail/x86/exp.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index cfc56bc..9c89359 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,11 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
-			constexpr std::int32_t sub_off = 0x80'0000;
+			constexpr std::int32_t sub_max = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(sub_max), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +107,12 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
+			constexpr std::int64_t sub_max = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(sub_max), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 19d1321624861cc67c3e1ca703eb48a338a1d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 63/84] fix: detection and scale of subnormal arguments of
 log10

---
 dpm/detail/x86/log10.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..2a822c8 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(I{25})));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(I{0x10}), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 934bc9daec9f76b2f3d72184bbf7ebc574d60148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 64/84] fix: offset of the log2 table for double

---
 dpm/detail/x86/log2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..a7619a4 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,12 +48,12 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
 
-		/* x = 2^k z; where z is in range [0x3fe6'9009'0000'0000, 2 * 0x3fe6'9009'0000'0000] and exact.  */
+		/* x = 2^k z; where z is in range [0x3fe6'0000'0000'0000, 2 * 0x3fe6'0000'0000'0000] and exact.  */
 		const auto k = bit_ashiftr<I, 52>(tmp);
 		const auto z = std::bit_cast<V>(sub<I>(ix, bit_and(tmp, fill<Vi>(0xfffull << 52))));
 
-- 
2.43.0


From 73e286340ea7f2422c437562ddb84d7a5203ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 65/84] fix: correction term and zeros of log1p

---
 dpm/detail/x86/log1p.cpp | 46 +++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..e56f0de 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -11,13 +11,11 @@ namespace dpm::detail
 	/* log(1 + x) - log(u) ~= c / u; where u = 1 + x rounded, and c = (1 + x) - u.
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
-	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
+	 * Let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401;
 	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
 	 * Otherwise (for k >= 52), c == 0.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x81,
 	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
@@ -47,14 +45,11 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x81 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x81));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -62,28 +57,26 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 23 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(22));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
-		/* log1p(x) ~= log(u) + c / u */
-		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(x) ~= log(u) + c / u; log(1) == 0 */
+		auto y = bit_andnot(cmp_eq<T>(u, fill<V>(one<T>)), eval_log<T>(std::bit_cast<Vi>(u)));
+		y = add<T>(y, div<T>(c, u));
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x401ull));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -91,14 +84,15 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 52 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(51ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
-		/* log1p(x) ~= log(u) + c / u */
-		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(x) ~= log(u) + c / u; log(1) == 0 */
+		auto y = bit_andnot(cmp_eq<T>(u, fill<V>(one<T>)), eval_log<T>(std::bit_cast<Vi>(u)));
+		y = add<T>(y, div<T>(c, u));
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
-- 
2.43.0


From fb2fee1b614ed7ce9194cb34d89e2d500e89e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 66/84] fix: hypot of two tiny double values is not their sum

---
 dpm/detail/x86/hypot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..9073b93 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(cmp_eq<T>(b, setzero<V>()), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0


From a22ef184127320fd9b1f75e4b2bfef701cd36671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 67/84] fix: the headers compile without DPM_INLINE_EXTENSIONS

---
 dpm/detail/generic/abi.hpp |  2 +-
 dpm/detail/x86/type.hpp    | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index f2985b4..0232323 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -101,7 +101,7 @@ namespace dpm
 			struct common_impl : common_impl<tag_sequence<>, Ts...> {};
 
 			template<std::size_t... Ns, std::size_t... As>
-			struct common_impl<tag_sequence<aligned_vector<Ns, As>...>> { using type = aligned_vector<std::max({Ns...}), std::max({As...})>; };
+			struct common_impl<tag_sequence<ext::aligned_vector<Ns, As>...>> { using type = ext::aligned_vector<std::max({Ns...}), std::max({As...})>; };
 
 			template<typename... Ts, typename U, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, U, Us...> : common_impl<tag_sequence<U, Ts...>, Us...> {};
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 386db03..b485a56 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -245,13 +245,13 @@ namespace dpm
 		else
 		{
 			detail::x86_mask<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto m_data = to_native_data(m);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
+			auto result_data = ext::to_native_data(result);
+			const auto m_data = ext::to_native_data(m);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
@@ -755,13 +755,13 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
-			const auto m_data = to_native_data(m);
+			auto result_data = ext::to_native_data(result);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
+			const auto m_data = ext::to_native_data(m);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
-- 
2.43.0


From f1018b120d909d8213450cbf39ce34a60c7f6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 68/84] fix: common ABI tag of scalar tags is not ambiguous

---
 dpm/detail/generic/abi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index 0232323..d3046aa 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -108,8 +108,8 @@ namespace dpm
 			template<typename... Ts, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, scalar, Us...> : common_impl<tag_sequence<Ts...>, Us...> {};
 
-			template<std::same_as<scalar>... Ts>
-			struct common_impl<tag_sequence<>, Ts...> { using type = scalar; };
+			template<>
+			struct common_impl<tag_sequence<>> { using type = scalar; };
 		}
 
 		DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From c42d4f79b0ce2994b4e6b72fc6c9e31d8ae61094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 69/84] fix: cpuid queries sub-leaf 0 of leaf 7

---
 dpm/detail/x86/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..c37bb21 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -41,7 +41,7 @@ namespace dpm
 #if defined(_MSC_VER) || defined(__CYGWIN__)
 		static DPM_FORCEINLINE void platform_cpuid(std::uint32_t leaf, cpuid_regs &regs) noexcept
 		{
-			__cpuid(reinterpret_cast<int *>(regs), static_cast<int>(leaf));
+			__cpuidex(reinterpret_cast<int *>(regs), static_cast<int>(leaf), 0);
 		}
 		static DPM_FORCEINLINE std::uint32_t platrofm_xcr0() noexcept
 		{
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From 7171e5b8de41acf082cdada990f18b6020b465c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 70/84] fix: AVX extensions are not reported when the OS has
 not enabled XSAVE

---
 dpm/detail/x86/cpuid.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index c37bb21..9b3d22f 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -218,6 +218,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* YMM & ZMM state can only be enabled through XCR0, so AVX is never usable without XSAVE. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From 5839c869f6747bb983bae135436dd39485439715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 71/84] fix: F16C is not reported when the OS has not enabled
 AVX state

---
 dpm/detail/x86/cpuid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 9b3d22f..bb4956a 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -223,6 +224,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
 
 				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
 				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
-- 
2.43.0


From b2ea15754eee32e8042d53c76be1eb717a32fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 72/84] fix: 64-bit greater-than comparison needs SSE4.2

---
 dpm/detail/x86/cmp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/cmp.hpp b/dpm/detail/x86/cmp.hpp
index 017dbe1..6ccc5aa 100644
--- a/dpm/detail/x86/cmp.hpp
+++ b/dpm/detail/x86/cmp.hpp
@@ -90,7 +90,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt(__m128i a, __m128i b) noexcept
 	{
-#ifdef DPM_HAS_SSE4_1
+#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 #else
 		const auto tmp = _mm_or_si128(_mm_and_si128(_mm_cmpeq_epi32(a, b), _mm_sub_epi64(b, a)), _mm_cmpgt_epi32(a, b));
@@ -102,7 +102,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_l32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
@@ -113,7 +113,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_h32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
-- 
2.43.0


From cd236d45ee778116f5e3f720e02801688762ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 73/84] fix: truncating conversion of doubles to 64-bit
 integers rounded with AVX-512

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 40a01f0..d2b52b1 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -177,7 +177,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvtt(__m128d x) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-		return _mm_cvtpd_epi64(x);
+		return _mm_cvttpd_epi64(x);
 #else
 		/* Truncate, then convert. */
 		return cvt_f64_i64_sse(trunc_sse2(x));
-- 
2.43.0


From 59cf07ce06c4503e35c39c469af2bd0057afe0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 74/84] fix: sincos with SVML did not compile: the routine
 takes a pointer

---
 dpm/detail/x86/trig.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/trig.hpp b/dpm/detail/x86/trig.hpp
index 5a25a82..6004428 100644
--- a/dpm/detail/x86/trig.hpp
+++ b/dpm/detail/x86/trig.hpp
@@ -123,7 +123,7 @@ namespace dpm
 		[[nodiscard]] __m256d DPM_API_PUBLIC DPM_MATHFUNC atan2(__m256d a, __m256d b) noexcept;
 #endif
 #else
-		DPM_FORCEINLINE void sincos(__m128 x, __m128 &s, __m128 &c) noexcept { s = _mm_sincos_ps(c, x); }
+		DPM_FORCEINLINE void sincos(__m128 x, __m128 &s, __m128 &c) noexcept { s = _mm_sincos_ps(&c, x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 sin(__m128 x) noexcept { return _mm_sin_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 cos(__m128 x) noexcept { return _mm_cos_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 tan(__m128 x) noexcept { return _mm_tan_ps(x); }
@@ -133,7 +133,7 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m128 atan2(__m128 a, __m128 b) noexcept { return _mm_atan2_ps(a, b); }
 
 #ifdef DPM_HAS_SSE2
-		DPM_FORCEINLINE void sincos(__m128d x, __m128d &s, __m128d &c) noexcept { s = _mm_sincos_pd(c, x); }
+		DPM_FORCEINLINE void sincos(__m128d x, __m128d &s, __m128d &c) noexcept { s = _mm_sincos_pd(&c, x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128d sin(__m128d x) noexcept { return _mm_sin_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128d cos(__m128d x) noexcept { return _mm_cos_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128d tan(__m128d x) noexcept { return _mm_tan_pd(x); }
@@ -143,7 +143,7 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m128d atan2(__m128d a, __m128d b) noexcept { return _mm_atan2_pd(a, b); }
 #endif
 #ifdef DPM_HAS_AVX
-		DPM_FORCEINLINE void sincos(__m256 x, __m256 &s, __m256 &c) noexcept { s = _mm256_sincos_ps(c, x); }
+		DPM_FORCEINLINE void sincos(__m256 x, __m256 &s, __m256 &c) noexcept { s = _mm256_sincos_ps(&c, x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 sin(__m256 x) noexcept { return _mm256_sin_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 cos(__m256 x) noexcept { return _mm256_cos_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 tan(__m256 x) noexcept { return _mm256_tan_ps(x); }
@@ -152,7 +152,7 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 atan(__m256 x) noexcept { return _mm256_atan_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 atan2(__m256 a, __m256 b) noexcept { return _mm256_atan2_ps(a, b); }
 
-		DPM_FORCEINLINE void sincos(__m256d x, __m256d &s, __m256d &c) noexcept { s = _mm256_sincos_pd(c, x); }
+		DPM_FORCEINLINE void sincos(__m256d x, __m256d &s, __m256d &c) noexcept { s = _mm256_sincos_pd(&c, x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d sin(__m256d x) noexcept { return _mm256_sin_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d cos(__m256d x) noexcept { return _mm256_cos_pd(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d tan(__m256d x) noexcept { return _mm256_tan_pd(x); }
-- 
2.43.0


From 2c3e7f903f559ea77a7107686716d98a78f6eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 75/84] fix: pow with a scalar exponent did not compile with
 SVML

---
 dpm/detail/x86/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/pow.hpp b/dpm/detail/x86/pow.hpp
index 33f906c..9cdb7e1 100644
--- a/dpm/detail/x86/pow.hpp
+++ b/dpm/detail/x86/pow.hpp
@@ -81,7 +81,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			using native_t = ext::dpm::native_data_type_t<detail::x86_simd<T, N, A>>;
+			using native_t = ext::native_data_type_t<detail::x86_simd<T, N, A>>;
 			detail::vectorize([pow = detail::fill<native_t>(p)](auto &res, auto x) { res = detail::pow(x, pow); }, result, x);
 			return result;
 		}
-- 
2.43.0


From ca57107da72fb88bd720bd5181fff289507b4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 76/84] fix: exp2 computed exp with SVML

---
 dpm/detail/x86/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index 9c89359..df4c092 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -228,7 +228,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::exp(x); }, result, x);
+			detail::vectorize([](auto &res, auto x) { res = detail::exp2(x); }, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From 8183fc9a9f11ad3e64a096d990005d811240b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 77/84] fix: error functions were not forwarded to SVML

---
 dpm/detail/x86/errfn.hpp | 2 +-
 dpm/detail/x86/math.hpp  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/errfn.hpp b/dpm/detail/x86/errfn.hpp
index f9f7c59..dc9a6c7 100644
--- a/dpm/detail/x86/errfn.hpp
+++ b/dpm/detail/x86/errfn.hpp
@@ -13,7 +13,7 @@ namespace dpm
 {
 	namespace detail
 	{
-		[[nodiscard]] DPM_FORCEINLINE __m128 arf(__m128 x) noexcept { return _mm_erf_ps(x); }
+		[[nodiscard]] DPM_FORCEINLINE __m128 erf(__m128 x) noexcept { return _mm_erf_ps(x); }
 		[[nodiscard]] DPM_FORCEINLINE __m128 erfc(__m128 x) noexcept { return _mm_erfc_ps(x); }
 
 #ifdef DPM_HAS_SSE2
diff --git a/dpm/detail/x86/math.hpp b/dpm/detail/x86/math.hpp
index 91cdd22..498329e 100644
--- a/dpm/detail/x86/math.hpp
+++ b/dpm/detail/x86/math.hpp
@@ -16,6 +16,7 @@
 #include "mbase.hpp"
 #include "pow.hpp"
 #include "exp.hpp"
+#include "errfn.hpp"
 #include "trig.hpp"
 #include "round.hpp"
 #include "fmanip.hpp"
-- 
2.43.0


From 6e809b3913d2fe7238f4e5f0a2a148cd6253712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 78/84] fix: hyperbolic functions were not forwarded to SVML

---
 dpm/detail/x86/math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dpm/detail/x86/math.hpp b/dpm/detail/x86/math.hpp
index 498329e..d149ea5 100644
--- a/dpm/detail/x86/math.hpp
+++ b/dpm/detail/x86/math.hpp
@@ -18,6 +18,7 @@
 #include "exp.hpp"
 #include "errfn.hpp"
 #include "trig.hpp"
+#include "hypbl.hpp"
 #include "round.hpp"
 #include "fmanip.hpp"
 #include "class.hpp"
-- 
2.43.0


From 36509fe99a3581e87482676528b2c908369a397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 79/84] fix: define the float argument reduction constants
 inline

The explicit specialisation of dp_sincos had a strong definition in every
translation unit when compiled with clang: two of them did not link.
---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index d63f10a..95a82f3 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -80,7 +80,7 @@ namespace dpm::detail
 	static constexpr T dp_sincos[] = {T{-7.85398125648498535156e-1}, T{-3.77489470793079817668e-8}, T{-2.69515142907905952645e-15}};
 	/* Leading parts of Pi / 4 must be short enough for their products with the multiple to be exact without FMA. */
 	template<>
-	constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
+	inline constexpr float dp_sincos<float>[] = {-0.78515625f, -2.4187564849853515625e-4f, -3.77489497744594108e-8f};
 	/* Largest argument that can be reduced by a multiple of Pi / 4 without loss of precision. */
 	template<std::floating_point T>
 	static constexpr T max_sincos = sizeof(T) == sizeof(double) ? T{0x2000'0000} : T{8192};
-- 
2.43.0


From f7d40ff20248a024153040a63fd860dd696a448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:22 +0000
Subject: [PATCH 80/84] fix: generators taking a constant index did not compile
 for native vectors

The constructors are constrained on the generator being callable with
std::integral_constant indices, as the generic vectors call it, but called it
with a std::size_t.
---
 dpm/detail/x86/type.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index b485a56..27f7366 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -114,11 +114,13 @@ namespace dpm
 		template<detail::element_generator<value_type, size()> G>
 		constexpr simd_mask(G &&gen) noexcept
 		{
+			std::array<value_type, size()> values = {};
+			detail::generate_n<size()>(values, std::forward<G>(gen));
 			for (std::size_t i = 0, j = 0; i < size(); i += native_extent, ++j)
 			{
 				std::array<value_alias, native_extent> buff = {};
 				for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
-					buff[k] = detail::extend_bool<value_alias>(std::invoke(gen, i + k));
+					buff[k] = detail::extend_bool<value_alias>(values[i + k]);
 				_data[j] = detail::native_bit_cast<native_type>(buff);
 			}
 		}
@@ -610,11 +612,13 @@ namespace dpm
 		template<detail::element_generator<value_type, size()> G>
 		constexpr simd(G &&gen) noexcept
 		{
+			std::array<value_type, size()> values = {};
+			detail::generate_n<size()>(values, std::forward<G>(gen));
 			for (std::size_t i = 0, j = 0; i < size(); i += native_extent, ++j)
 			{
 				std::array<value_type, native_extent> buff = {};
 				for (std::size_t k = 0; k < buff.size() && i + k < size(); ++k)
-					buff[k] = static_cast<T>(std::invoke(gen, i + k));
+					buff[k] = values[i + k];
 				_data[j] = detail::native_bit_cast<native_type>(buff);
 			}
 		}
-- 
2.43.0


From c3c384289dd9c6a6633f6c9788af54dd7cd78b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 81/84] fix: constant evaluation of elements past the first
 native vector indexed out of bounds

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 27f7366..51e8d83 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -171,7 +171,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -695,7 +695,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From f6e36f99a19cffc818ba4f1d6cb7b389ee07c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 82/84] fix: operations on native vectors could not be constant
 evaluated

Every operation has a branch for constant evaluation that converts from a
packed vector, but loading assigned through the subscript operator, which
reinterprets the storage and is never a constant expression.
---
 dpm/detail/x86/type.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 51e8d83..1dca605 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -138,8 +138,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask{[&](std::size_t i) { return static_cast<value_type>(mem[i]); }};
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -153,8 +156,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask{[&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; }};
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -656,7 +662,10 @@ namespace dpm
 					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
-			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd{[&](std::size_t j) { return static_cast<T>(mem[j]); }};
+			else
+				for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags, typename U = std::iter_value_t<I>>
@@ -677,8 +686,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd{[&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; }};
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 20a9e260c6a8ce6a4411a3bc15d25a76ce9d9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 83/84] fix: products and shifts of native vectors could not be
 constant evaluated

'!std::is_constant_evaluated() && a || b' selected the intrinsics for
constant evaluation as well, and never for the sizes bound to the test.
---
 dpm/detail/x86/type.hpp | 150 +++++++++++++++++++++-------------------
 1 file changed, 78 insertions(+), 72 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 1dca605..cff3c82 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -940,45 +940,47 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		constexpr bool is_native = sizeof(T) == 2;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
+				return result;
+			}
 		}
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, T b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		constexpr bool is_native = sizeof(T) == 2;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed * b);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
+				detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
+				return result;
+			}
 		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed * b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
@@ -1100,90 +1102,94 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 4 || sizeof(T) == 8;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 8;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
+				return result;
+			}
 		}
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool is_native = std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool is_native = std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8);
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool is_native = std::unsigned_integral<T> && sizeof(T) == 8;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
+				return result;
+			}
 		}
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 4 || sizeof(T) == 8;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool is_native = sizeof(T) == 8;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed << n);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
+				return result;
+			}
 		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed << n);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool is_native = std::unsigned_integral<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool is_native = std::unsigned_integral<T> && (sizeof(T) == 4 || sizeof(T) == 8);
 #else
-		if constexpr(std::unsigned_integral<T> && !std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool is_native = std::unsigned_integral<T> && sizeof(T) == 8;
 #endif
+		if constexpr(is_native)
 		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
+				return result;
+			}
 		}
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
 	}
 
 	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
-- 
2.43.0


From e3a03198f8fd428ba65fe22db7ba6d4fdc4e786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:59 +0000
Subject: [PATCH 84/84] fix: constant evaluation of copysign ignored the sign
 operand

---
 dpm/detail/x86/fmanip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 760e894..965274a 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -394,7 +394,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(sign);
 			const auto packed_x = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 			return static_cast<detail::x86_simd<T, N, A>>(copysign(packed_x, packed_sign));
 		}
-- 
2.43.0

