From 21c234ff9754259c9552608ea2a9d993e756c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 01/78] fix: aligned simd copy_from of a mutable source pointer
 did not compile (converted the pointer instead of the elements)

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..6ab70d1 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -649,7 +649,7 @@ namespace dpm
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
+					const U *src = std::to_address(mem);
 					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
-- 
2.43.0


From 0419c68d3403b41f0320ed00d82a1154afd10a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 02/78] fix: aligned simd copy_from/copy_to accessed memory
 past size() elements when the last native vector is partial

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6ab70d1..5a632ae 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -650,7 +650,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const U *src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -664,7 +664,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
-- 
2.43.0


From 6b423bd112d59f7fb7bb4e292baa24de481c19d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 03/78] fix: prefix ++/-- of simd did not compile for element
 types other than int

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..38d9ef9 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -724,10 +724,10 @@ namespace dpm
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + T{1}; }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - T{1}; }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From de78b39c8b29b746c381a316a1910510e74a57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 04/78] fix: x86 simd_mask copy_from/copy_to indexed native
 vectors instead of mask elements (did not compile)

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5a632ae..ef28871 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From 39b0f08b0ca799a29a0a21b817b9c987a659007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 05/78] fix: x86 simd masked copy_from/copy_to indexed native
 vectors instead of elements (did not compile)

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index ef28871..2442f3e 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From 813262eb69d267ac80139f8dc6de8d9d87abd96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 06/78] fix: constant-evaluated subscript of x86 simd and
 simd_mask read past the native vector for elements beyond the first one

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 2442f3e..52129a6 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -169,7 +169,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -692,7 +692,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From 4b9634a221eeca74319bdfa47f19ca0292eecd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 07/78] fix: simd <<= and >>= by a vector of counts shifted in
 the opposite direction

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 38d9ef9..786cae1 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -956,10 +956,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From 6f4fdc170f869ea70b568b4f5ce2882e7d6c758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 08/78] fix: x86 operator>> by a vector of counts shifted 8-
 and 16-bit (and pre-SSE4.1 32-bit) elements to the left

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 52129a6..0d7fd5b 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1122,7 +1122,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From 8e1ae4b45dc1d9e90ce80e964d202c53c510859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 09/78] fix: x86 operator>> of 64-bit (and SSE4.1 32-bit)
 signed elements shifted in zeroes instead of the sign

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0d7fd5b..ef82897 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1107,11 +1107,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1152,11 +1152,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::unsigned_integral<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From b4ba68c4a1dd4286af592c7b47008a465ce50870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 10/78] fix: x86 lsl/lsr/asl/asr did not compile: the
 constant-evaluated branch converted to a mask sized by the shift count

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index ef82897..fca5d70 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1302,8 +1302,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1318,8 +1318,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1335,8 +1335,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1351,8 +1351,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From a2881044e0466c75397f02becaa6112bfdc68c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 11/78] fix: generic lsr did not compile for unsigned elements
 and for signed elements whose shift is arithmetic

---
 dpm/detail/generic/type.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 786cae1..60f18a3 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -626,18 +626,12 @@ namespace dpm
 		template<std::size_t N, std::unsigned_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
+			return static_cast<T>(x >> N);
 		}
 		template<std::size_t N, std::signed_integral T>
 		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
 		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
+			return static_cast<T>(lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x)));
 		}
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
-- 
2.43.0


From b055d0ef1a3c73fc6b820a345ebbcef6314ab8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 12/78] fix: x86 asr of 64-bit elements by less than 32 lost
 the bits shifted from the high into the low half

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From ea5d539043627b21f315892f37056098999ca1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 13/78] fix: generic simd_mask operator~ was true for every
 element

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 60f18a3..56e019a 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From f1170409ad2655bce5cae430aa7a83a877442364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 14/78] fix: x86 simd_mask operator&& was false for every
 element

---
 dpm/detail/x86/type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index fca5d70..52322eb 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -342,9 +342,10 @@ namespace dpm
 		{
 			detail::x86_mask<T, N, A> result = {};
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
-			detail::vectorize([z = zero](auto &res, auto a, auto b)
+			const auto ones = detail::setones<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			detail::vectorize([z = zero, o = ones](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
+				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), o);
 				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
 			}, result, a, b);
 			return result;
-- 
2.43.0


From b8d70df704d63b55966f572d38b51305e5c3a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 15/78] fix: none_of of a packed simd_mask did not compile
 (unconstrained x86 overload)

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 52322eb..39c1b21 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -430,7 +430,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From a68a49c7941b0aa8d6d04cb1d14fd5c4e21549a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 16/78] fix: x86 reduce_max_index was off by the number of
 padding elements when the last native vector is partial

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 39c1b21..6fde378 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -550,7 +550,7 @@ namespace dpm
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
 				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				if (bits) return (std::min(j * native_extent, mask_t::size()) - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From 004481344f517b3da3650f974b32a3d3882c66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 17/78] fix: constant-evaluated x86 reduce_max_index ignored
 the first element

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6fde378..8b5c851 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -537,7 +537,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
-- 
2.43.0


From 88b104236147f11edc43343a19c90675d249c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 18/78] fix: AVX2 movemask sign-extended its 32 bits, so
 reduce_count counted up to 32 elements too many

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..5cf95d3 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From dd9207e4afde84c2b01e8b0d640b836b849262c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 19/78] fix: construction of x86 simd and simd_mask from an
 array or span of native vectors did not compile

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 8b5c851..9fb251f 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -597,9 +597,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 7f83a36544de2235fdc9a36a492eed3acabf8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 20/78] fix: aligned float-to-integer copy_from/copy_to rounded
 (or returned garbage out of the magic-number range) instead of converting
 like static_cast

---
 dpm/detail/x86/utility.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 5cf95d3..fba717d 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -313,7 +313,19 @@ namespace dpm::detail
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::floating_point<To> && std::integral<From> && sizeof(To) == sizeof(From)) { dst = cvt<To, From>(src); }
+	template<typename To, typename From, typename VTo, typename VFrom>
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::integral<To> && std::floating_point<From> && sizeof(To) == sizeof(From))
+	{
+		/* Conversion must be equivalent to `static_cast`, so it has to truncate and cover the entire range of the destination type. */
+		if constexpr (signed_integral_of_size<To, 4>)
+			dst = cvtt<To, From>(src);
+		else
+		{
+			for (std::size_t i = 0; i < sizeof(VTo) / sizeof(To); ++i)
+				reinterpret_cast<alias_t<To> *>(&dst)[i] = static_cast<To>(reinterpret_cast<const alias_t<From> *>(&src)[i]);
+		}
+	}
 	template<typename To, typename From, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
 	template<typename To, typename From, typename VTo>
-- 
2.43.0


From 6dd567b5e405ffca932d824c9314ceccdec2760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 21/78] fix: aligned uint32-to-float conversion rounded twice

---
 dpm/detail/x86/cvt.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..1c4e216 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -37,9 +37,9 @@ namespace dpm::detail
 
 	[[nodiscard]] DPM_FORCEINLINE __m128 cvt_u32_f32(__m128i x) noexcept
 	{
-		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(1)));
-		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 1));
-		return _mm_add_ps(_mm_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(0xffff)));
+		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 16));
+		return _mm_add_ps(_mm_mul_ps(b, _mm_set1_ps(65536.0f)), a); /* (x >> 16) * 2^16 + x & 0xffff, only the last addition rounds */
 	}
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvt_f32_u32(__m128 x) noexcept
 	{
@@ -235,9 +235,9 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256 cvt_u32_f32(__m256i x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(1)));
-		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 1));
-		return _mm256_add_ps(_mm256_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(0xffff)));
+		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 16));
+		return _mm256_add_ps(_mm256_mul_ps(b, _mm256_set1_ps(65536.0f)), a); /* (x >> 16) * 2^16 + x & 0xffff, only the last addition rounds */
 #else
 		const auto l = cvt_u32_f32(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u32_f32(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 39e48f2dadc96d969fd6af1f555c68beec5092f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 22/78] fix: SSE4.1 int64-to-double conversion used the low
 half of each element as its high half

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 1c4e216..39da460 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -87,7 +87,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0xcc);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From f3c1295da4865954e2f2cc148d3078849d3fa827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 23/78] fix: integer min, max and clamp of 256-bit vectors did
 not compile with AVX and without AVX2

---
 dpm/detail/x86/minmax.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..6a36cca 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -84,6 +84,11 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept requires(sizeof(T) < 8) { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept requires(sizeof(T) < 8) { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From e76e9c089755fc56345ce9776d54cc10214b08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 24/78] fix: generic minmax read dangling references to its
 elements and loaded its second result from an unaligned row

---
 dpm/detail/generic/type.hpp | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 56e019a..3684223 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1189,30 +1189,10 @@ namespace dpm
 
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and \a b. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
-	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
-		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
-			result[0][i] = min;
-			result[1][i] = max;
-		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
-	}
+	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept { return {min(a, b), max(a, b)}; }
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and scalar \a b. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept
-	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
-		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-		{
-			const auto [min, max] = std::minmax(a[i], b);
-			result[0][i] = min;
-			result[1][i] = max;
-		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
-	}
+	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept { return {min(a, b), max(a, b)}; }
 
 	/** Clamps elements of \a x between corresponding elements of \a min and \a max. */
 	template<typename T, typename Abi>
-- 
2.43.0


From 469dc71a78c3bb4c046f940939842b69317556a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 25/78] fix: floating-point min, max and clamp of vectors
 disagreed with std::min, std::max and std::clamp for NaN and signed zeros
 (operand order)

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9fb251f..9b979a5 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1577,7 +1577,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::min<T>(a, b); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::min<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -1594,7 +1594,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::max<T>(a, b); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::max<T>(b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -1616,7 +1616,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x, auto min, auto max) { res = detail::min<T>(detail::max<T>(x, min), max); }, result, x, min, max);
+			detail::vectorize([](auto &res, auto x, auto min, auto max) { res = detail::min<T>(max, detail::max<T>(min, x)); }, result, x, min, max);
 			return result;
 		}
 	}
@@ -1805,7 +1805,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::min<T>(a, b); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::min<T>(b, a); }, result, a);
 			return result;
 		}
 	}
@@ -1822,7 +1822,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::max<T>(a, b); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::max<T>(b, a); }, result, a);
 			return result;
 		}
 	}
@@ -1843,7 +1843,7 @@ namespace dpm
 			detail::x86_simd<T, N, A> result = {};
 			const auto min_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(min);
 			const auto max_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(max);
-			detail::vectorize([min = min_vec, max = max_vec](auto &res, auto x) { res = detail::min<T>(detail::max<T>(x, min), max); }, result, x);
+			detail::vectorize([min = min_vec, max = max_vec](auto &res, auto x) { res = detail::min<T>(max, detail::max<T>(min, x)); }, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From 622a3b84e60b8f741278b21c2a910c09fa0bf987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 26/78] fix: x86 reduce returned nothing for integer
 multiplication and custom operations, and did not compile for 64-bit
 multiplication with SSE4.1

---
 dpm/detail/x86/type.hpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9b979a5..5cf9ba3 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1416,28 +1416,22 @@ namespace dpm
 			return detail::reduce_impl<size>(x, op);
 		else if constexpr (detail::template_instance<Op, std::plus>)
 			return detail::reduce_add<T, size>(x_data);
-		if constexpr (detail::template_instance<Op, std::multiplies>)
-		{
-			if constexpr (std::floating_point<T>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && std::floating_point<T>)
+			return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 4>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
-				return detail::reduce_mul<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::multiplies> && detail::integral_of_size<T, 8>)
+			return detail::reduce_mul<T, size>(x_data);
 #endif
-		}
-		if constexpr (std::integral<T>)
-		{
-			if constexpr (detail::template_instance<Op, std::bit_and>)
-				return detail::reduce_and<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_xor>)
-				return detail::reduce_xor<T, size>(x_data);
-			if constexpr (detail::template_instance<Op, std::bit_or>)
-				return detail::reduce_or<T, size>(x_data);
-		}
+		else if constexpr (detail::template_instance<Op, std::bit_and> && std::integral<T>)
+			return detail::reduce_and<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_xor> && std::integral<T>)
+			return detail::reduce_xor<T, size>(x_data);
+		else if constexpr (detail::template_instance<Op, std::bit_or> && std::integral<T>)
+			return detail::reduce_or<T, size>(x_data);
 		else
 			return detail::reduce_impl<size>(x, op);
 	}
-- 
2.43.0


From 909d09aece6c17155b488ffd3b35a09669bfcf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 27/78] fix: generic reduce used the first element for the
 whole first half of the vector

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 3684223..aa2f843 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From de3f5dec61322b17d3d89ec47c7982b50c217d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 28/78] fix: constant-evaluated branch of x86 reduce_min and
 reduce_max cast the vector to a mask, so neither compiled

---
 dpm/detail/x86/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5cf9ba3..66965ca 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1465,7 +1465,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::min(a, b); });
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1474,7 +1474,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::max(a, b); });
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1484,7 +1484,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::min(a, b); });
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1493,7 +1493,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::max(a, b); });
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1503,7 +1503,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::min(a, b); });
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1512,7 +1512,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::max(a, b); });
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1521,7 +1521,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::min(a, b); });
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1530,7 +1530,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::max(a, b); });
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1541,7 +1541,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::min(a, b); });
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1550,7 +1550,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return detail::reduce_impl<N>(x, [](T a, T b) { return std::max(a, b); });
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From 232111ad112f5d2ec2dceefad16e2cea45f6ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 29/78] fix: reductions of 256-bit vectors of 8- and 16-bit
 integers did not compile with AVX2

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..529beb5 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -589,6 +589,11 @@ namespace dpm::detail
 		b = op(b, a);
 		return std::bit_cast<T>(_mm256_cvtsd_f64(std::bit_cast<__m256d>(b)));
 	}
+	template<typename T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(std::integral<T> && sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_castsi256_si128(v), _mm256_extracti128_si256(v, 1)), op);
+	}
 #else
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
-- 
2.43.0


From a97f2427071f0d601c455d174a4ae39c6a2cd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 30/78] fix: reduce_min and reduce_max of partially filled
 vectors returned the largest finite value when every element was infinite

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 66965ca..c186515 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1373,9 +1373,9 @@ namespace dpm
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::floating_point<T> ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max())), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(static_cast<T>(std::floating_point<T> ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest())), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From 1470dedfc0f9b28a36e56b6f5622ed8665fd3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 31/78] fix: evaluate constexpr x86 shuffle into the result
 width

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index c186515..6977e5c 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -729,7 +729,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 1d3b691bcc61cd43b400714f782f055d9232b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 32/78] fix: pad partial shuffles with an in-bounds index

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 529beb5..2fb3857 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -649,7 +649,7 @@ namespace dpm::detail
 			shuffle<T, J>(extract_sequence_t<next_pos, sizeof...(Is) - native_extent, Is...>{}, dst + 1, src);
 		}
 		else
-			shuffle<T, J>(pad_sequence_t<native_extent, 1, Is...>{}, dst, src);
+			shuffle<T, J>(pad_sequence_t<native_extent, 0, Is...>{}, dst, src);
 	}
 
 	template<typename T, std::size_t N, typename V, typename Op>
-- 
2.43.0


From 27224f747ad0828a52fd48409e1cac8f27c073df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 33/78] fix: 256-bit maskblend of 8/16-bit lanes with a partial
 lower half without AVX2

---
 dpm/detail/x86/transform.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 2fb3857..785854a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -598,14 +598,16 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 16 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 16) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 8 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 8) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From cb964ba7f7fdafd8a15b281ec8e6c97a8a2ea032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 34/78] fix: islessgreater is false for equal elements

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..a7e8f9f 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(a, b), detail::cmp_gt<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 974fa6cbe073790d951b52022c089627f249f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 35/78] fix: isnormal is false for NaN

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index a7e8f9f..9513495 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpge_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpge_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From 71cc19a1280be67c489ca3f5211ef07b96ba22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 36/78] fix: signbit fills every bit of mask elements

---
 dpm/detail/x86/class.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 9513495..d8080b5 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -177,7 +177,12 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto x) { res = detail::masksign<T>(x); }, result, x);
+			/* Every bit of a mask element must agree, sign of x moved to 1 compares less than 0 for any x. */
+			detail::vectorize([]<typename V>(V &res, V x)
+			{
+				const auto signed_one = detail::copysign<T>(detail::fill<V>(T{1}), detail::masksign<T>(x));
+				res = detail::cmp_lt<T>(signed_one, detail::setzero<V>());
+			}, result, x);
 			return result;
 		}
 	}
-- 
2.43.0


From 2589ae320c7fa94f86aae00026bb93a9cb1f6e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 37/78] fix: return a vector from generic abs

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..593d210 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -32,7 +32,7 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::abs(x[i]);
-		return result;
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From 09d19f6c7f28b1b32f5ffaac00bfb083dd331ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 38/78] fix: generic fmin of a vector and a scalar

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 593d210..421e214 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-- 
2.43.0


From 39740554309ab01e8e32d637347234c0440d22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 39/78] fix: sign mask used by x86 integer abs

---
 dpm/detail/x86/mbase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..af4bb65 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,7 +127,7 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
+			const auto t = cmp_gt<T>(setzero<V>(), x);
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From 8ed36e163a4f8ea3d97c523e0df2d860aec8cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 40/78] fix: select the ordered operand in x86 fmin and fmax

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index af4bb65..9ff21f8 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), a, detail::isunord(b, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), a, detail::isunord(b, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), a, detail::isunord(b, b)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), a, detail::isunord(b, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From c8fe3b9994e0219f42739b799064d131af4ee9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 41/78] fix: x86 fdim of equal infinities

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 9ff21f8..e7df5d7 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -343,7 +343,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -397,7 +397,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 7363c42d3322796a35db1ebe9b549503413f2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 42/78] fix: constant-evaluated branch of x86 lerp

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index e7df5d7..e0f45cc 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From 583db137bfaa82dd44712db689619fa0efdfb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 43/78] fix: SSE2 truncation of doubles below 1 compared the
 wrong half of the exponent

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 39da460..d0f19dc 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
-- 
2.43.0


From 17face15b5b486b7372962db774759c81cfe8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 44/78] fix: SSE2 ceil, floor and trunc of large, special and
 negative values

---
 dpm/detail/x86/round.hpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..f9ae48e 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -17,14 +17,13 @@ namespace dpm
 	namespace detail
 	{
 #ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		/* Values with magnitude above 2^23 have no fractional part and may not fit a 32-bit integer. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 trunc_sse2(__m128 x) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
+			const auto sign = _mm_and_ps(x, _mm_set1_ps(-0.0f));
+			const auto fract = _mm_cmplt_ps(_mm_xor_ps(x, sign), _mm_set1_ps(8388608.0f));
+			const auto tx = _mm_or_ps(_mm_cvtepi32_ps(_mm_cvttps_epi32(x)), sign);
+			return _mm_or_ps(_mm_and_ps(fract, tx), _mm_andnot_ps(fract, x));
 		}
 #endif
 
@@ -35,8 +34,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(-1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 floor(__m128 x) noexcept
@@ -46,8 +45,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -57,7 +56,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_trunc_ps(x);
 #else
-			return mask_domain(x, _mm_cvtepi32_ps(_mm_cvttps_epi32(x)));
+			return trunc_sse2(x);
 #endif
 		}
 
@@ -68,8 +67,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(-1.0)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -79,8 +78,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0)));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
-- 
2.43.0


From d493204802c526d35d99b3c7bd25b184119199f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 45/78] fix: SSE2 round of halves and of values outside the
 int32 range

---
 dpm/detail/x86/round.hpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index f9ae48e..aa11784 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -143,17 +143,12 @@ namespace dpm
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
+			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
+			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
+			*dst = trunc(_mm_add_ps(x, off));
 #endif
 		}
 
@@ -234,17 +229,12 @@ namespace dpm
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			const auto sign = bit_and(x, _mm_set1_pd(-0.0));
+			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
+			*dst = trunc(_mm_add_pd(x, off));
 #endif
 		}
 
-- 
2.43.0


From d4860f53cb594ac25e7257402f369e860eecc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 46/78] fix: AVX round of floats masked the operand instead of
 adding the offset

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index aa11784..3a9a62c 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -336,7 +336,7 @@ namespace dpm
 		{
 			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
 			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 55863caf4677eabb06cb60c1f1c07c847943731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 47/78] fix: SSE2 rint of large doubles

---
 dpm/detail/x86/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 3a9a62c..579cd0c 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -254,7 +254,7 @@ namespace dpm
 
 			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
 			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
 
-- 
2.43.0


From d4baf1a82a6b6bf3e1df11d25489421da41b4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 48/78] fix: x86 rounding functions with integer results

---
 dpm/detail/x86/round.hpp | 295 +--------------------------------------
 1 file changed, 7 insertions(+), 288 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 579cd0c..ab3dfca 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -93,53 +93,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttps_epi32(x);
-			const auto tx = _mm_cvtepi32_ps(ix);
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttps_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			auto ih = _mm_cvttps_epi64(_mm_movehl_ps(x, x));
-			auto il = _mm_cvttps_epi64(x);
-			const auto th = _mm_cvtepi64_ps(ih);
-			const auto tl = _mm_cvtepi64_ps(il);
-			const auto tx = _mm_movelh_ps(tl, th);
-
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
@@ -152,21 +105,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept { *dst = _mm_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128 x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm_cvtps_epi64(_mm_movehl_ps(x, x));
-			dst[0] = _mm_cvtps_epi64(x);
-#else
-			const auto tmp = _mm_cvtps_epi32(x);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			dst[0] = _mm_unpacklo_epi32(tmp, sign);
-			dst[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<float> T>
 		inline void rint(__m128 x, __m128 *dst) noexcept
 		{
@@ -195,37 +133,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m128d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm_cvttpd_epi32(x);
-			const auto tx = _mm_cvtepi32_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m128d x, __m128i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm_cvttpd_epi64(x);
-			const auto tx = _mm_cvtepi64_pd(ix);
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi64(ix, _mm_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto zero = bit_xor(tmp, tmp);
-			dst[0] = _mm_unpacklo_epi32(tmp, zero);
-			dst[1] = _mm_unpackhi_epi32(tmp, zero);
-#endif
-		}
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
@@ -238,10 +145,6 @@ namespace dpm
 #endif
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = _mm_cvtpd_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m128d x, __m128i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		inline void rint(__m128d x, __m128d *dst) noexcept
 		{
@@ -276,61 +179,6 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 trunc(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 nearbyint(__m256 x) noexcept { return _mm256_round_ps(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept { *dst = cvtt<T, float>(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256 x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
-#else
-			const auto tmp = cvtt<std::int32_t, float>(x);
-			const auto sign = _mm256_srai_epi32(tmp, 31);
-			const auto ih = std::bit_cast<__m256>(_mm256_unpackhi_epi32(tmp, sign));
-			const auto il = std::bit_cast<__m256>(_mm256_unpacklo_epi32(tmp, sign));
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttps_epi32(x);
-			const auto tx = _mm256_cvtepi32_ps(ix);
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-#ifdef DPM_HAS_AVX2
-			*dst = _mm256_add_epi32(ix, _mm256_cvttps_epi32(rem));
-#else
-			*dst = mux_128x2<__m256i>([](auto i) { return _mm_add_epi32(i); }, _mm256_cvttps_epi32(rem));
-#endif
-		}
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256 x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
-			const auto th = _mm256_cvtepi64_ps(ih);
-			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
-
-			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
-#else
-			__m256i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-#endif
-		}
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
@@ -339,18 +187,6 @@ namespace dpm
 			*dst = _mm256_round_ps(_mm256_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept { *dst = _mm256_cvtps_epi32(x); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256 x, __m256i *dst) noexcept
-		{
-			const auto tmp = _mm256_cvtps_epi32(x);
-			const auto sign = std::bit_cast<__m256>(_mm256_srai_epi32(tmp, 31));
-			const auto ih = _mm256_unpackhi_ps(std::bit_cast<__m256>(tmp), sign);
-			const auto il = _mm256_unpacklo_ps(std::bit_cast<__m256>(tmp), sign);
-			dst[0] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x20));
-			dst[1] = std::bit_cast<__m256i>(_mm256_permute2f128_ps(il, ih, 0x31));
-		}
 		template<std::same_as<float> T>
 		DPM_FORCEINLINE void rint(__m256 x, __m256 *dst) noexcept { *dst = _mm256_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 
@@ -359,41 +195,6 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d trunc(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d nearbyint(__m256d x) noexcept { return _mm256_round_pd(x, _MM_FROUND_NO_EXC | _MM_FROUND_CUR_DIRECTION); }
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m128i *dst) noexcept { *dst = cvtt<T, double>(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { itrunc<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void itrunc(__m256d x, __m256i *dst) noexcept { *dst = cvtt<T, double>(x); }
-
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m128i *dst) noexcept
-		{
-			const auto ix = _mm256_cvttpd_epi32(x);
-			const auto tx = _mm256_cvtepi32_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm_add_epi32(ix, _mm256_cvttpd_epi32(rem));
-		}
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept { round<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void round(__m256d x, __m256i *dst) noexcept
-		{
-#if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-			const auto ix = _mm256_cvttpd_epi64(x);
-			const auto tx = _mm256_cvtepi64_pd(ix);
-			const auto near2 = _mm256_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm256_mul_pd(_mm256_sub_pd(x, tx), near2);
-			*dst = _mm256_add_epi64(ix, _mm256_cvttpd_epi64(rem));
-#else
-			__m128i tmp;
-			round<std::int32_t>(x, &tmp);
-			const auto sign = _mm_srai_epi32(tmp, 31);
-			reinterpret_cast<__m128i *>(dst)[0] = _mm_unpacklo_epi32(tmp, sign);
-			reinterpret_cast<__m128i *>(dst)[1] = _mm_unpackhi_epi32(tmp, sign);
-#endif
-		}
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
@@ -402,35 +203,9 @@ namespace dpm
 			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
 		}
 
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m128i *dst) noexcept { *dst = _mm256_cvtpd_epi32(x); }
-		template<integral_of_size<4> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { rint<T>(x, reinterpret_cast<__m128i *>(dst)); }
-		template<integral_of_size<8> T>
-		DPM_FORCEINLINE void rint(__m256d x, __m256i *dst) noexcept { *dst = cvt_f64_i64(x); }
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void rint(__m256d x, __m256d *dst) noexcept { *dst = _mm256_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION); }
 #endif
-
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
-
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256d *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128d *>(dst)); }
-		template<typename T, typename V>
-		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
-
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -524,18 +299,7 @@ namespace dpm
 			return static_cast<detail::x86_simd<long, N, A>>(lround(packed));
 		}
 		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+			return static_simd_cast<long>(round(x));
 	}
 	/** Casts elements of vector \a x to `long long` rounding away from zero. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
@@ -547,18 +311,7 @@ namespace dpm
 			return static_cast<detail::x86_simd<long long, N, A>>(llround(packed));
 		}
 		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+			return static_simd_cast<long long>(round(x));
 	}
 
 	/** Rounds elements of vector \a x to nearest integer using current rounding mode with exceptions. */
@@ -587,18 +340,7 @@ namespace dpm
 			return static_cast<detail::x86_simd<long, N, A>>(lrint(packed));
 		}
 		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+			return static_simd_cast<long>(rint(x));
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<long long, N, A>
@@ -610,18 +352,7 @@ namespace dpm
 			return static_cast<detail::x86_simd<long long, N, A>>(llrint(packed));
 		}
 		else
-		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
-			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
-			return result;
-		}
+			return static_simd_cast<long long>(rint(x));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -636,11 +367,7 @@ namespace dpm
 				return static_cast<detail::x86_simd<I, N, A>>(itrunc<I>(packed));
 			}
 			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
-				return result;
-			}
+				return static_simd_cast<I>(x);
 		}
 		/** Casts elements of vector \a x to integer of type \a I rounding away from zero. */
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
@@ -652,11 +379,7 @@ namespace dpm
 				return static_cast<detail::x86_simd<I, N, A>>(iround<I>(packed));
 			}
 			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
-				return result;
-			}
+				return static_simd_cast<I>(round(x));
 		}
 		/** Casts elements of vector \a x to integer of type \a I using current rounding mode with exceptions. */
 		template<std::signed_integral I, std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A> && detail::x86_overload_any<I, N, A>
@@ -668,11 +391,7 @@ namespace dpm
 				return static_cast<detail::x86_simd<I, N, A>>(irint<I>(packed));
 			}
 			else
-			{
-				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
-				return result;
-			}
+				return static_simd_cast<I>(rint(x));
 		}
 	}
 }
-- 
2.43.0


From acac2b0976c14d4c591233afbbc0d84eaf199683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 49/78] fix: generic rint truncated through long and lrint did
 not compile

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 421e214..4fae5da 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
@@ -916,7 +916,7 @@ namespace dpm
 		rebind_simd_t<long, simd<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
-		return {result.data(), vector_aligned};
+		return result;
 	}
 	/** Casts elements of vector \a x to `long long` using current rounding mode with exceptions. */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From c602805c84a8b282ed4ca713008ac2703fae5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 50/78] fix: frexp exponent of subnormal values

---
 dpm/detail/x86/frexp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..26daf16 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -20,7 +20,7 @@ namespace dpm::detail
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
 		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From ecbeb1d71d36d8d2ae29c36c0d7709fdbe9f9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 51/78] fix: integral part of modf for values below 1,
 out-of-range shift counts

---
 dpm/detail/x86/modf.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..699bd2d 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -28,6 +28,7 @@ namespace dpm::detail
 		const auto fract_x = x;
 
 		/* mask = -1 >> (exp_bits + 1) >> e */
+		e = bit_andnot(std::bit_cast<Vi>(bit_or(int_mask, fract_mask)), e);
 		const auto mask = std::bit_cast<V>(bit_shiftr<I>(bit_shiftr<I, exp_bits<I> + 1>(fill<Vi>(I{-1})), e));
 
 		/* mask_zero = (ix & mask) == 0 */
@@ -39,10 +40,10 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = e >= mant_bits ? x : x2 */
+		auto i = blendv<T>(x2, x, int_mask);
+		/* i = e < 0 ? x & -0.0 : i */
+		i = blendv<T>(i, fract_ip, fract_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From 068a286bb1b1cc838ba0a765896a44f6598b940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 52/78] fix: exponent operands of ldexp and scalbn for 256-bit
 doubles

---
 dpm/detail/x86/fmanip.hpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..c908afd 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,26 +128,14 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
-			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
-			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
-			return _mm256_set_m128d(h, l);
+			const auto sign = _mm_srai_epi32(exp[i], 31);
+			const auto exph = _mm_unpackhi_epi32(exp[i], sign);
+			const auto expl = _mm_unpacklo_epi32(exp[i], sign);
+			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
-#ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
-#else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
-#endif
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-- 
2.43.0


From 2232b4d21d099e3a08fa9cadcc225db8cc7f34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 53/78] fix: scalbln of 256-bit floats used the same exponents
 for both halves

---
 dpm/detail/x86/fmanip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index c908afd..b9e8988 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -141,8 +141,8 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(exp[i * 2 + 1]);
+			const auto expl = cvt_i64_i32(exp[i * 2]);
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
-- 
2.43.0


From 7685dc02b086d2b4ec4b918c1850c7086b38121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 54/78] fix: scalbn and scalbln exponents near or beyond the
 limits of int wrapped around

---
 dpm/detail/x86/fmanip.hpp | 20 +++++++++++++++-----
 dpm/detail/x86/scalbn.cpp |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index b9e8988..d7b789b 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -48,6 +48,15 @@ namespace dpm
 			out[i / 2] = cvt_i64x2_i32(tmp0, tmp1);
 		}
 
+		/* Saturate exponents, so that exponent arithmetic and narrowing conversions do not overflow. */
+		template<typename I, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V clamp_scalbn(V n) noexcept
+		{
+			const auto max = fill<V>(max_scalbn<I>), min = fill<V>(-max_scalbn<I>);
+			n = blendv<I>(n, max, cmp_gt<I>(n, max));
+			return blendv<I>(n, min, cmp_gt<I>(min, n));
+		}
+
 		[[nodiscard]] __m128 DPM_API_PUBLIC DPM_MATHFUNC scalbn(__m128 x, __m128i exp) noexcept;
 		[[nodiscard]] __m128d DPM_API_PUBLIC DPM_MATHFUNC scalbn(__m128d x, __m128i exp) noexcept;
 
@@ -64,8 +73,8 @@ namespace dpm
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
+			const auto exph = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2 + 1]));
+			const auto expl = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -138,11 +147,11 @@ namespace dpm
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i]))); }
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i * 2 + 1]);
-			const auto expl = cvt_i64_i32(exp[i * 2]);
+			const auto exph = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2 + 1]));
+			const auto expl = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
@@ -352,6 +361,7 @@ namespace dpm
 		}
 		else
 		{
+			exp = std::clamp<long>(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>);
 			using exp_t = int_of_size_t<sizeof(T)>;
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..3239b53 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -13,6 +13,7 @@ namespace dpm::detail
 	template<typename T, typename V, typename Vi, typename I = int_of_size_t<sizeof(T)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_scalbn(V x, Vi n) noexcept
 	{
+		n = clamp_scalbn<I>(n);
 		const auto ix = std::bit_cast<Vi>(x);
 		const auto x_exp = bit_and(bit_shiftr<I, mant_bits<I>>(ix), fill<Vi>(exp_mask<I>));
 		auto fwd_mask = std::bit_cast<Vi>(cmp_eq<T>(x, setzero<V>()));
-- 
2.43.0


From 060677f4f27f591bfa781ab05e5f5f0881d540d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:50 +0000
Subject: [PATCH 55/78] fix: ilogb of infinite doubles

---
 dpm/detail/x86/logb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/logb.cpp b/dpm/detail/x86/logb.cpp
index efca565..a25acfd 100644
--- a/dpm/detail/x86/logb.cpp
+++ b/dpm/detail/x86/logb.cpp
@@ -44,7 +44,7 @@ namespace dpm::detail
 		auto y = eval_ilogb<T, I>(abs_x);
 #ifdef DPM_HANDLE_ERRORS
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGB0)), std::bit_cast<decltype(y)>(cmp_eq<T>(abs_x, setzero<V>())));
-		y = blendv<I>(y, fill<decltype(y)>(std::numeric_limits<I>::max()), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
+		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(std::numeric_limits<int>::max())), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
 #endif
 #ifdef DPM_PROPAGATE_NAN
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGBNAN)), std::bit_cast<decltype(y)>(isunord(x, x)));
-- 
2.43.0


From 84ba2be61f9b8b0116a3be821322680dbca9cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 56/78] fix: scalbln read exponents past the end of partially
 used vectors

---
 dpm/detail/x86/fmanip.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index d7b789b..1265eb1 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -253,8 +253,15 @@ namespace dpm
 		{
 			detail::x86_simd <T, N, A> result = {};
 			auto result_data = ext::to_native_data(result);
-			const auto exp_data = ext::to_native_data(exp);
 			const auto x_data = ext::to_native_data(x);
+
+			/* Exponents of the last vector of x may be fewer than its elements, pad them with zeros. */
+			using exp_vector = ext::native_data_type_t<detail::x86_simd<long, N, A>>;
+			constexpr auto x_bytes = ext::native_data_size_v<detail::x86_simd<T, N, A>> * sizeof(ext::native_data_type_t<detail::x86_simd<T, N, A>>);
+			constexpr auto exp_size = std::max(x_bytes / sizeof(T) * sizeof(long) / sizeof(exp_vector), ext::native_data_size_v<detail::x86_simd<long, N, A>>);
+			std::array<exp_vector, exp_size> exp_data = {};
+			std::ranges::copy(ext::to_native_data(exp), exp_data.begin());
+
 			for (std::size_t i = 0; i < ext::native_data_size_v < detail::x86_simd < T, N, A >>; ++i)
 			{
 				if constexpr (sizeof(long) == sizeof(std::int64_t))
-- 
2.43.0


From 9972250867520412033aaf78ba741075fddad884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 57/78] fix: constant-evaluated branch of x86 copysign ignored
 the sign operand

---
 dpm/detail/x86/fmanip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 1265eb1..c5d12ef 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -404,7 +404,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(sign);
 			const auto packed_x = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 			return static_cast<detail::x86_simd<T, N, A>>(copysign(packed_x, packed_sign));
 		}
-- 
2.43.0


From d5902cd3548a36fbbdcac6464718f224876c09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 58/78] fix: pass the element, not the vector, to the sincos
 builtins

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 4fae5da..430dcef 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From 6606a414fd9b03148cee33497482a6e31609d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 59/78] fix: return both results of frexp, modf and sincos
 kernels instead of a hidden register

---
 dpm/detail/x86/math_fwd.hpp | 47 -------------------------------------
 1 file changed, 47 deletions(-)

diff --git a/dpm/detail/x86/math_fwd.hpp b/dpm/detail/x86/math_fwd.hpp
index 43b75da..41d7ce6 100644
--- a/dpm/detail/x86/math_fwd.hpp
+++ b/dpm/detail/x86/math_fwd.hpp
@@ -9,52 +9,6 @@
 
 namespace dpm::detail
 {
-	/* On GNU-compatible systems return 2 registers at once. */
-#ifdef __GNUC__
-	template<typename T0, typename T1>
-	using vec2_return_t = T0;
-
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 16)
-	{
-		/* Avoid discarding y */
-#ifdef DPM_HAS_AVX
-		__asm__ ("vmovaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#else
-		__asm__ ("movaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#endif
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 16)
-	{
-		x = f(x);
-		/* Read second variable from xmm1 */
-#ifdef DPM_HAS_AVX
-		__asm__ volatile ("vmovaps %%xmm1, %[out]" : [out] "=xm"(out));
-#else
-		__asm__ volatile ("movaps %%xmm1, %[out]" : [out] "=xm"(out));
-#endif
-		return x;
-	}
-#ifdef DPM_HAS_AVX
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 32)
-	{
-		/* Avoid discarding y */
-		__asm__ ("vmovaps %[y], %%ymm1" : : [y] "x"(y) : "ymm1");
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 32)
-	{
-		x = f(x);
-		/* Read second variable from ymm1 */
-		__asm__ volatile ("vmovaps %%ymm1, %[out]" : [out] "=xm"(out));
-		return x;
-	}
-#endif
-#else
 	template<typename T0, typename T1>
 	using vec2_return_t = std::pair<T0, T1>;
 
@@ -67,5 +21,4 @@ namespace dpm::detail
 		out = res.second;
 		return res.first;
 	}
-#endif
 }
\ No newline at end of file
-- 
2.43.0


From 57851130c633383d377edd2b2fd838d7e41eeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 60/78] fix: promoting frexp, ldexp, scalbn and scalbln did not
 compile for vector ABIs

---
 dpm/detail/generic/math.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 430dcef..de33ffb 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -1084,19 +1084,38 @@ namespace dpm
 	/** @copydoc frexp
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr DPM_FORCEINLINE auto frexp(const simd<T, Abi> &x, simd<int, Abi> *exp) noexcept { return frexp(rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>{x}, exp); }
+	[[nodiscard]] constexpr DPM_FORCEINLINE auto frexp(const simd<T, Abi> &x, simd<int, Abi> *exp) noexcept
+	{
+		using promoted_t = rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>;
+		simd<int, typename promoted_t::abi_type> promoted_exp = {};
+		const auto result = frexp(promoted_t{x}, &promoted_exp);
+		*exp = simd<int, Abi>{promoted_exp};
+		return result;
+	}
 	/** @copydoc ldexp
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr DPM_FORCEINLINE auto ldexp(const simd<T, Abi> &x, const simd<int, Abi> &exp) noexcept { return ldexp(rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>{x}, exp); }
+	[[nodiscard]] constexpr DPM_FORCEINLINE auto ldexp(const simd<T, Abi> &x, const simd<int, Abi> &exp) noexcept
+	{
+		using promoted_t = rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>;
+		return ldexp(promoted_t{x}, simd<int, typename promoted_t::abi_type>{exp});
+	}
 	/** @copydoc scalbn
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr DPM_FORCEINLINE auto scalbn(const simd<T, Abi> &x, const simd<int, Abi> &exp) noexcept { return scalbn(rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>{x}, exp); }
+	[[nodiscard]] constexpr DPM_FORCEINLINE auto scalbn(const simd<T, Abi> &x, const simd<int, Abi> &exp) noexcept
+	{
+		using promoted_t = rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>;
+		return scalbn(promoted_t{x}, simd<int, typename promoted_t::abi_type>{exp});
+	}
 	/** @copydoc scalbln
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr DPM_FORCEINLINE auto scalbln(const simd<T, Abi> &x, const simd<long, Abi> &exp) noexcept { return scalbln(rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>{x}, exp); }
+	[[nodiscard]] constexpr DPM_FORCEINLINE auto scalbln(const simd<T, Abi> &x, const simd<long, Abi> &exp) noexcept
+	{
+		using promoted_t = rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>;
+		return scalbln(promoted_t{x}, simd<long, typename promoted_t::abi_type>{exp});
+	}
 	/** @copydoc ilogb
 	 * @note Arguments are promoted to `double`, or `long double` if one of the arguments is `long double`. */
 	template<typename T, typename Abi>
@@ -1202,8 +1221,7 @@ namespace dpm
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr DPM_FORCEINLINE auto frexp(const simd<T, Abi> &x, simd<int, Abi> &exp) noexcept
 		{
-			using promoted_t = rebind_simd_t<detail::promote_t<T>, simd<T, Abi>>;
-			return frexp(promoted_t{x}, exp);
+			return dpm::frexp(x, &exp);
 		}
 	}
 #pragma endregion
-- 
2.43.0


From e5b4c523c5ec16e106366a4262160bdef2af671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 61/78] fix: ext::remquo was always ambiguous; remquo quotient
 alignment

---
 dpm/detail/generic/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index de33ffb..4477c2d 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -58,10 +58,10 @@ namespace dpm
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 	 * at least 3 last bits of the division result in elements of \a out_quo. */
-	template<typename T, typename Abi, typename QAbi>
+	template<std::floating_point T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
-		alignas(simd<int, Abi>) std::array<int, simd_size_v<int, Abi>> quo = {};
+		alignas(simd<int, QAbi>) std::array<int, simd_size_v<T, Abi>> quo = {};
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::remquo(a[i], b[i], quo.data() + i);
@@ -276,8 +276,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<std::floating_point T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From 760d149b838469ca7dacc222d3af75d89b5810ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:10 +0000
Subject: [PATCH 62/78] fix: integer arguments of remainder, fmax, fmin, fdim
 and lerp are promoted to double

---
 dpm/detail/generic/math.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 4477c2d..9e3e2ad 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -48,7 +48,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> remainder(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -71,7 +71,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -81,7 +81,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -90,7 +90,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vectors \a a and \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -99,7 +99,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -185,7 +185,7 @@ namespace dpm
 	}
 	/** Calculates the maximum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmax(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -195,7 +195,7 @@ namespace dpm
 	}
 	/** Calculates the minimum of elements in \a a and scalar \a b, respecting the NaN propagation
 	 * as specified in IEC 60559 (ordered values are always selected over unordered). */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fmin(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -204,7 +204,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> fdim(const simd<T, Abi> &a, T b) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
@@ -213,7 +213,7 @@ namespace dpm
 		return {result.data(), vector_aligned};
 	}
 	/** Preforms linear interpolation or extrapolation between elements of vectors \a a and \a b using scalar factor \a f */
-	template<typename T, typename Abi>
+	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> lerp(const simd<T, Abi> &a, const simd<T, Abi> &b, T f) noexcept
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
-- 
2.43.0


From 36db79bef93b78802004b66967f89c2efc02c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 63/78] fix: log10(float) of a subnormal argument ignored the
 scaling by 2^25 in every odd element

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..fac5ead 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25)));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
-- 
2.43.0


From b8720e66aebe8af41657b1f56cf58a962c6ad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 64/78] fix: log10(double) scaled every argument as if it was
 subnormal, overflowing for large ones

---
 dpm/detail/x86/log10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index fac5ead..74dc921 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 4aa8ab1daf14846e7479dc975ec7260ebcd264dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 65/78] fix: log & log2 never normalized subnormal arguments

---
 dpm/detail/x86/exp.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..5326a64 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,10 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
-			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal, zero or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(0x80'0000), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +106,11 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal or zero. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(0x10ull), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 2c8102bd82bac3c64f898a1296ae720ed54bf5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 66/78] fix: poles of the logarithms are negative infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index 5326a64..fa9725e 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From 4fd8765f658e7c0b7431a9bc779c24385bef5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 67/78] fix: log1p of negative zero and negative subnormal
 arguments

---
 dpm/detail/x86/log1p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..ea02cc5 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -32,7 +32,7 @@ namespace dpm::detail
 #endif
 #ifdef DPM_HANDLE_ERRORS
 		/* log1p(subnormal x) == x */
-		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
+		const auto exp = bit_and(std::bit_cast<Vi>(x), fill<Vi>(static_cast<I>(exp_mask<I> << mant_bits<I>)));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
 		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-- 
2.43.0


From 9eb2e0caa8574051eb8da6cbebe8d4b9424f54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 68/78] fix: log1p dropped its correction term, losing all
 precision near zero

---
 dpm/detail/x86/log1p.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index ea02cc5..0c96884 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -11,13 +11,11 @@ namespace dpm::detail
 	/* log(1 + x) - log(u) ~= c / u; where u = 1 + x rounded, and c = (1 + x) - u.
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
-	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
+	 * Let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x401 (the exponent of u less 2);
 	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
 	 * Otherwise (for k >= 52), c == 0.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x81,
 	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
@@ -47,14 +45,11 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x81 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x81));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -62,8 +57,8 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 23 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(22));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
@@ -76,14 +71,11 @@ namespace dpm::detail
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x401 */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x401ull));
 
 		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
 		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
@@ -91,8 +83,8 @@ namespace dpm::detail
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 52 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(51ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
-- 
2.43.0


From f38e0c0a600b3b52ac512608ef991cbb21a8a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 69/78] fix: coefficients of tan near zero were in the wrong
 order

---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From 6a7d089845dd0b795b489b9b2e043996f5f98667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:43 +0000
Subject: [PATCH 70/78] fix: sin, cos & tan of arguments whose quotient by Pi /
 4 does not fit the integer conversion

---
 dpm/detail/x86/sincos.cpp | 2 +-
 dpm/detail/x86/tan.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..85d2706 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,7 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		const auto oflow_mask = cvt_has_overflow<I>(add<T>(abs_x, abs_x)); /* 4 / Pi < 2 */
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..0108ad5 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,7 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		if (const auto m = movemask<I>(cvt_has_overflow<I>(add<T>(abs_x, abs_x))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From af66a9f58ba04612b052a60060a3c882a5dc6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:45 +0000
Subject: [PATCH 71/78] fix: log2(double) selected lookup table entries of a
 neighbouring interval

---
 dpm/detail/x86/log2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..a7619a4 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,12 +48,12 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
 
-		/* x = 2^k z; where z is in range [0x3fe6'9009'0000'0000, 2 * 0x3fe6'9009'0000'0000] and exact.  */
+		/* x = 2^k z; where z is in range [0x3fe6'0000'0000'0000, 2 * 0x3fe6'0000'0000'0000] and exact.  */
 		const auto k = bit_ashiftr<I, 52>(tmp);
 		const auto z = std::bit_cast<V>(sub<I>(ix, bit_and(tmp, fill<Vi>(0xfffull << 52))));
 
-- 
2.43.0


From 028dde979d11a5cff5fcc98fae69ff1d77988994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:10 +0000
Subject: [PATCH 72/78] fix: CPUID leaf 7 was read with an undefined subleaf in
 ECX

---
 dpm/detail/x86/cpuid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..c37bb21 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -41,7 +41,7 @@ namespace dpm
 #if defined(_MSC_VER) || defined(__CYGWIN__)
 		static DPM_FORCEINLINE void platform_cpuid(std::uint32_t leaf, cpuid_regs &regs) noexcept
 		{
-			__cpuid(reinterpret_cast<int *>(regs), static_cast<int>(leaf));
+			__cpuidex(reinterpret_cast<int *>(regs), static_cast<int>(leaf), 0);
 		}
 		static DPM_FORCEINLINE std::uint32_t platrofm_xcr0() noexcept
 		{
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From 8a972ba82c0dcedbca5f3d07b745fe52f38d7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:26 +0000
Subject: [PATCH 73/78] fix: AVX, FMA, F16C and AVX-512 were reported without
 operating system support for their registers

---
 dpm/detail/x86/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index c37bb21..464750f 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -218,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* AVX and AVX-512 state is only ever enabled through XCR0. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From 28f67ff49eaecbaec0588dc838641a04cb27bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:50 +0000
Subject: [PATCH 74/78] fix: ext::common of scalar tags was ambiguous

---
 dpm/detail/generic/abi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index f2985b4..0e3af29 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -108,8 +108,8 @@ namespace dpm
 			template<typename... Ts, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, scalar, Us...> : common_impl<tag_sequence<Ts...>, Us...> {};
 
-			template<std::same_as<scalar>... Ts>
-			struct common_impl<tag_sequence<>, Ts...> { using type = scalar; };
+			template<>
+			struct common_impl<tag_sequence<>> { using type = scalar; };
 		}
 
 		DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From 1428fb8bde9c195cb649406055a438753b5658a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 75/78] fix: shuffle accepted an index past size() when every
 index was the same

---
 dpm/detail/generic/type.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index aa2f843..a060da3 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -271,6 +271,7 @@ namespace dpm
 		template<std::size_t I, std::size_t... Is, typename T, typename Abi>
 		[[nodiscard]] constexpr simd_mask<T, simd_abi::deduce_t<T, sizeof...(Is) + 1, Abi>> shuffle(const simd_mask<T, Abi> &x)
 		{
+			static_assert(I < simd_mask<T, Abi>::size() && ((Is < simd_mask<T, Abi>::size()) && ...));
 			using result_t = simd_mask<T, simd_abi::deduce_t<T, sizeof...(Is) + 1, Abi>>;
 			if constexpr (detail::is_sequential<1, 0, I, Is...>::value && result_t::size() == simd_mask<T, Abi>::size())
 				return result_t{x};
@@ -662,6 +663,7 @@ namespace dpm
 		template<std::size_t I, std::size_t... Is, typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, simd_abi::deduce_t<T, sizeof...(Is) + 1, Abi>> shuffle(const simd<T, Abi> &x) noexcept
 		{
+			static_assert(I < simd<T, Abi>::size() && ((Is < simd<T, Abi>::size()) && ...));
 			using result_t = simd<T, simd_abi::deduce_t<T, sizeof...(Is) + 1, Abi>>;
 			if constexpr (detail::is_sequential<1, 0, I, Is...>::value && result_t::size() == simd<T, Abi>::size())
 				return result_t{x};
-- 
2.43.0


From 6d0a9b8c50dc813f917e941677be95be6dd7b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:24 +0000
Subject: [PATCH 76/78] fix: AVX-512 range reduction of double sin, cos and tan
 rounded where it has to truncate

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index d0f19dc..5e8e5ca 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -177,7 +177,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvtt(__m128d x) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-		return _mm_cvtpd_epi64(x);
+		return _mm_cvttpd_epi64(x);
 #else
 		/* Truncate, then convert. */
 		return cvt_f64_i64_sse(trunc_sse2(x));
-- 
2.43.0


From 2b79a80e3395b463045bcc08fc1f6466f71aa0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:24 +0000
Subject: [PATCH 77/78] fix: 64-bit signed comparisons did not compile for
 SSE4.1 targets without SSE4.2

---
 dpm/detail/x86/cmp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/cmp.hpp b/dpm/detail/x86/cmp.hpp
index 017dbe1..6ccc5aa 100644
--- a/dpm/detail/x86/cmp.hpp
+++ b/dpm/detail/x86/cmp.hpp
@@ -90,7 +90,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt(__m128i a, __m128i b) noexcept
 	{
-#ifdef DPM_HAS_SSE4_1
+#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 #else
 		const auto tmp = _mm_or_si128(_mm_and_si128(_mm_cmpeq_epi32(a, b), _mm_sub_epi64(b, a)), _mm_cmpgt_epi32(a, b));
@@ -102,7 +102,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_l32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
@@ -113,7 +113,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_h32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
-- 
2.43.0


From 87484d8bf4b7d73a846e1f3403824e0d51ace64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 78/78] fix: double hypot of arguments below 2^-1042 returned
 their sum

---
 dpm/detail/x86/hypot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..9073b93 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(cmp_eq<T>(b, setzero<V>()), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0

