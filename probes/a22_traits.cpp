// A22: type-level witnesses.  Every instance of CHECK is one obligation, decided by the compiler's own type checker for one
// element type and ABI; a failing one stops the build and names itself.
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <cstdint>
#include <limits>
#include <memory>
#include <type_traits>
namespace w
{
	using namespace dpm;
	namespace abi = dpm::simd_abi;
	template<int K, bool B, class Where> struct C { static_assert(B, "witness"); static constexpr unsigned n = 1; };
#define CHECK(...) C<__COUNTER__, static_cast<bool>(__VA_ARGS__), ctx>::n
	using ctx = void;
	constexpr bool pow2(std::size_t x) { return x && !(x & (x - 1)); }
	template<class X> concept complete = requires { sizeof(X); };
	template<class X> concept def = std::is_default_constructible_v<X>;

	template<class T, class Abi, std::size_t N, std::size_t A> struct Pair { using ctx = Pair;
		using V = simd<T, Abi>; using M = simd_mask<T, Abi>;
		using nat = ext::native_data_type_t<V>; using natm = ext::native_data_type_t<M>;
		static constexpr bool packed = A == SIZE_MAX;
		static constexpr unsigned n =
			// sizes
			CHECK(V::size() == N) + CHECK(M::size() == N) + CHECK(simd_size_v<T, Abi> == N) + CHECK(simd_size<T, Abi>::value == N) + CHECK(V::size() == Abi::size) +
			// identity of the member types
			CHECK(std::is_same_v<typename V::value_type, T>) + CHECK(std::is_same_v<typename M::value_type, bool>) + CHECK(std::is_same_v<typename V::abi_type, Abi>) + CHECK(std::is_same_v<typename M::abi_type, Abi>) +
			CHECK(std::is_same_v<typename V::mask_type, M>) + CHECK(std::is_same_v<typename M::simd_type, V>) + CHECK(std::is_same_v<typename M::mask_type, M>) +
			// classification
			CHECK(is_abi_tag_v<Abi>) + CHECK(is_simd_v<V>) + CHECK(!is_simd_v<M>) + CHECK(is_simd_mask_v<M>) + CHECK(!is_simd_mask_v<V>) + CHECK(!is_abi_tag_v<V>) + CHECK(!is_simd_flag_type_v<V>) + CHECK(!is_simd_v<Abi>) + CHECK(!is_simd_v<T>) + CHECK(!is_simd_mask_v<T>) + CHECK(!is_abi_tag_v<T>) +
			// value types: copied as bytes, never throwing
			CHECK(std::is_trivially_copyable_v<V>) + CHECK(std::is_trivially_copyable_v<M>) + CHECK(std::is_nothrow_default_constructible_v<V>) + CHECK(std::is_nothrow_default_constructible_v<M>) + CHECK(std::is_nothrow_copy_constructible_v<V>) + CHECK(std::is_nothrow_copy_assignable_v<M>) +
			CHECK(std::is_nothrow_constructible_v<V, T>) + CHECK(std::is_nothrow_constructible_v<M, bool>) +
			// layout: room for every element, the alignment the ABI asks for, whole native vectors
			CHECK(sizeof(V) >= N * sizeof(T)) + CHECK(alignof(V) >= alignof(T)) + CHECK(pow2(alignof(V))) + CHECK(packed || A == 0 || alignof(V) >= A) + CHECK(!packed || (sizeof(V) == N * sizeof(T) && alignof(V) == alignof(T))) +
			CHECK(sizeof(nat) * ext::native_data_size_v<V> >= N * sizeof(T)) + CHECK(sizeof(V) >= sizeof(nat) * ext::native_data_size_v<V>) + CHECK(sizeof(V) < sizeof(nat) * ext::native_data_size_v<V> + alignof(V)) + CHECK(alignof(V) >= alignof(nat)) +
			CHECK((sizeof(nat) * ext::native_data_size_v<V> < N * sizeof(T) + sizeof(nat))) +
			CHECK(sizeof(M) >= sizeof(natm) * ext::native_data_size_v<M>) + CHECK(sizeof(M) < sizeof(natm) * ext::native_data_size_v<M> + alignof(M)) + CHECK(alignof(M) >= alignof(natm)) + CHECK(sizeof(M) >= N) +
			CHECK(std::is_same_v<decltype(ext::to_native_data(std::declval<V &>())), std::span<nat, ext::native_data_size_v<V>>>) + CHECK(std::is_same_v<decltype(ext::to_native_data(std::declval<const V &>())), std::span<const nat, ext::native_data_size_v<V>>>) +
			CHECK(std::is_same_v<decltype(ext::to_native_data(std::declval<M &>())), std::span<natm, ext::native_data_size_v<M>>>) + CHECK(std::is_same_v<decltype(ext::to_native_data(std::declval<const M &>())), std::span<const natm, ext::native_data_size_v<M>>>) +
			// alignment of memory used with vector_aligned
			CHECK(memory_alignment_v<V> == alignof(V)) + CHECK((memory_alignment_v<V, T>) == alignof(V)) + CHECK((memory_alignment<V, double>::value) == (alignof(V) > alignof(double) ? alignof(V) : alignof(double))) + CHECK((memory_alignment_v<V, std::int8_t>) == alignof(V)) + CHECK(memory_alignment_v<M> == alignof(M)) + CHECK((memory_alignment_v<M, bool>) == alignof(M)) +
			// operations follow the element type
			CHECK((requires(V v) { { ~v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v % v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v & v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v | v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v ^ v } -> std::same_as<V>; }) == std::is_integral_v<T>) +
			CHECK((requires(V v) { { v << v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v >> v } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v << 1 } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { { v >> 1 } -> std::same_as<V>; }) == std::is_integral_v<T>) + CHECK((requires(V v) { v %= v; }) == std::is_integral_v<T>) + CHECK((requires(V v) { v &= v; }) == std::is_integral_v<T>) + CHECK((requires(V v) { v <<= v; }) == std::is_integral_v<T>) +
			CHECK(requires(V v) { { v + v } -> std::same_as<V>; { v - v } -> std::same_as<V>; { v * v } -> std::same_as<V>; { v / v } -> std::same_as<V>; { -v } -> std::same_as<V>; { +v } -> std::same_as<V>; { ++v } -> std::same_as<V &>; { v++ } -> std::same_as<V>; }) +
			CHECK(requires(V v) { { v == v } -> std::same_as<M>; { v != v } -> std::same_as<M>; { v < v } -> std::same_as<M>; { v <= v } -> std::same_as<M>; { v > v } -> std::same_as<M>; { v >= v } -> std::same_as<M>; { !v } -> std::same_as<M>; }) +
			CHECK(requires(M m) { { m && m } -> std::same_as<M>; { m || m } -> std::same_as<M>; { m & m } -> std::same_as<M>; { m | m } -> std::same_as<M>; { m ^ m } -> std::same_as<M>; { !m } -> std::same_as<M>; { m == m } -> std::same_as<M>; { m != m } -> std::same_as<M>; }) +
			CHECK(!requires(M m) { m + m; }) + CHECK(!requires(M m) { m << m; }) + CHECK(!requires(V v, M m) { v + m; }) +
			CHECK(requires(const V v) { { v[0] } -> std::convertible_to<T>; }) + CHECK(requires(const M m) { { m[0] } -> std::convertible_to<bool>; }) +
			CHECK(requires(M m) { { all_of(m) } -> std::same_as<bool>; { any_of(m) } -> std::same_as<bool>; { none_of(m) } -> std::same_as<bool>; { some_of(m) } -> std::same_as<bool>; { reduce_count(m) } -> std::integral; { reduce_min_index(m) } -> std::integral; { reduce_max_index(m) } -> std::integral; }) +
			CHECK(requires(V v) { { reduce(v) } -> std::same_as<T>; { hmin(v) } -> std::same_as<T>; { hmax(v) } -> std::same_as<T>; } || requires(V v) { { reduce(v) } -> std::same_as<T>; }) +
			// copies accept the alignment flags and nothing else
			CHECK(requires(V v, T *p) { v.copy_from(p, element_aligned); v.copy_from(p, vector_aligned); v.copy_from(p, overaligned<64>); v.copy_to(p, element_aligned); }) + CHECK(!requires(V v, T *p) { v.copy_from(p, 0); }) + CHECK(!requires(V v, const T *p) { v.copy_to(p, 1); }) + CHECK(!requires(V v, void **p) { v.copy_from(p, element_aligned); }) + CHECK(!requires(M m, bool *p) { m.copy_from(p, 0); }) +
			// the arithmetic a user may not ask for
			CHECK(!std::is_convertible_v<void *, V>) + CHECK(!std::is_convertible_v<V, T>) + CHECK(!std::is_convertible_v<V, bool>) + CHECK(!std::is_convertible_v<M, bool> || N == 1) ;
	};
	template<class A, class B> struct Both;
	// another element type keeps the number of elements; another number of elements keeps the type
	template<class T, class Abi, std::size_t N, class... Us> struct Rebind { using ctx = Rebind;
		using V = simd<T, Abi>; using M = simd_mask<T, Abi>;
		template<class U> struct One { using ctx = Both<U, Rebind>; static constexpr unsigned n = CHECK(rebind_simd_t<U, V>::size() == N) + CHECK(std::is_same_v<typename rebind_simd_t<U, V>::value_type, U>) + CHECK(is_simd_v<rebind_simd_t<U, V>>) + CHECK(rebind_simd_t<U, M>::size() == N) + CHECK(is_simd_mask_v<rebind_simd_t<U, M>>) + CHECK(std::is_same_v<typename rebind_simd_t<U, V>::mask_type, rebind_simd_t<U, M>>) + CHECK(def<rebind_simd_t<U, V>>) + CHECK(rebind_simd_t<T, rebind_simd_t<U, V>>::size() == N) + CHECK(std::is_constructible_v<rebind_simd_t<U, M>, M> || std::is_convertible_v<M, rebind_simd_t<U, M>>); };
		static constexpr unsigned n = (One<Us>::n + ...) + CHECK(std::is_same_v<rebind_simd_t<T, V>, V>) + CHECK(std::is_same_v<rebind_simd_t<T, M>, M>) + CHECK(std::is_same_v<resize_simd_t<N, V>, V>) + CHECK(std::is_same_v<resize_simd_t<N, M>, M>);
	};
	template<class T, class Abi, std::size_t K> struct Resize { using ctx = Resize;
		using V = simd<T, Abi>; using M = simd_mask<T, Abi>; using W = resize_simd_t<K, V>;
		static constexpr unsigned n = CHECK(W::size() == K) + CHECK(std::is_same_v<typename W::value_type, T>) + CHECK(def<W>) + CHECK(resize_simd_t<K, M>::size() == K) + CHECK(std::is_same_v<typename W::mask_type, resize_simd_t<K, M>>);
	};
	template<class T, std::size_t K> struct Deduce { using ctx = Deduce;
		using A = abi::deduce_t<T, K>;
		static constexpr unsigned n = CHECK(is_abi_tag_v<A>) + CHECK(simd_size_v<T, A> == K) + CHECK(def<simd<T, A>>) + CHECK(K != 1 || std::is_same_v<A, abi::scalar>) + CHECK(fixed_size_simd<T, K>::size() == K) + CHECK(fixed_size_simd_mask<T, K>::size() == K) + CHECK(std::is_same_v<abi::deduce_t<T, K, A>, A>) + CHECK(simd_size_v<T, abi::deduce_t<T, K, abi::scalar>> == K) + CHECK(simd_size_v<T, abi::deduce_t<T, K, abi::fixed_size<K>>> == K) + CHECK(simd_size_v<T, abi::deduce_t<T, K, abi::ext::packed_buffer<K + 1>>> == K);
	};
	template<class T, class = std::make_index_sequence<33>> struct Sizes;
	template<class T, std::size_t... I> struct Sizes<T, std::index_sequence<0, I...>> { static constexpr unsigned n = (Deduce<T, I>::n + ...); };

	template<class T> struct Type { using ctx = Type;
		static constexpr std::size_t S = sizeof(T);
#ifdef __AVX__
		static constexpr std::size_t NATIVE = 32;
#else
		static constexpr std::size_t NATIVE = 16;
#endif
		template<std::size_t N, std::size_t A> using vec = abi::ext::aligned_vector<N, A>;
		template<class Abi, std::size_t N, std::size_t A> static constexpr unsigned at = Pair<T, Abi, N, A>::n + Rebind<T, Abi, N, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float, double>::n + Resize<T, Abi, 2>::n + Resize<T, Abi, 3>::n + Resize<T, Abi, 16>::n + Resize<T, Abi, 33>::n + Resize<T, Abi, 1>::n;
		template<std::size_t N> static constexpr unsigned al = at<vec<N, 0>, N, 0> + at<vec<N, 16>, N, 16> + at<vec<N, 32>, N, 32> + at<vec<N, SIZE_MAX>, N, SIZE_MAX>;
		static constexpr unsigned n = Sizes<T>::n + at<abi::scalar, 1, 0> + al<2> + al<3> + al<16 / S> + al<16 / S + 1> + al<32 / S> + al<32 / S + 1> + al<64 / S> + at<vec<4, 64>, 4, 64> + at<vec<4, 8>, 4, 8> +
			// the names of the native and portable vectors
			CHECK(simd_size_v<T, abi::compatible<T>> == 16 / S) + CHECK(sizeof(simd<T, abi::compatible<T>>) == 16) + CHECK(std::is_same_v<abi::compatible<T>, abi::ext::sse<T>>) + CHECK((sizeof(native_simd<T>)) == NATIVE) + CHECK(native_simd<T>::size() * S == NATIVE) + CHECK(native_simd_mask<T>::size() * S == NATIVE) + CHECK(std::is_same_v<simd<T>, native_simd<T>> || std::is_same_v<simd<T>, simd<T, abi::compatible<T>>>) + CHECK(simd_size_v<T> == 16 / S) + CHECK(alignof(native_simd<T>) == NATIVE) + CHECK(abi::max_fixed_size<T> >= 32);
#ifdef __AVX__
		static constexpr unsigned n2 = CHECK(std::is_same_v<abi::native<T>, abi::ext::avx<T>>) + CHECK(simd_size_v<T, abi::ext::avx<T>> == 32 / S) + CHECK(std::is_same_v<ext::native_data_type_t<simd<T, abi::ext::avx<T>>>, std::conditional_t<std::is_same_v<T, float>, __m256, std::conditional_t<std::is_same_v<T, double>, __m256d, __m256i>>>) + CHECK((ext::native_data_size_v<simd<T, abi::ext::avx<T>>>) == 1);
#else
		static constexpr unsigned n2 = 0;
#endif
		static constexpr unsigned n3 = CHECK(std::is_same_v<ext::native_data_type_t<simd<T, abi::ext::sse<T>>>, std::conditional_t<std::is_same_v<T, float>, __m128, std::conditional_t<std::is_same_v<T, double>, __m128d, __m128i>>>) + CHECK((ext::native_data_size_v<simd<T, abi::ext::sse<T>>>) == 1);
	};
	// common ABI tags
	template<std::size_t N, std::size_t A> using av = abi::ext::aligned_vector<N, A>;
	template<class A, class B, class R> struct Common { using ctx = Common; static constexpr unsigned n = CHECK(std::is_same_v<abi::ext::common_t<A, B>, R>) + CHECK(std::is_same_v<abi::ext::common_t<B, A>, R>) + CHECK(std::is_same_v<abi::ext::common_t<A, B, A>, R>) + CHECK(std::is_same_v<abi::ext::common_t<A, A, B>, R>) + CHECK(std::is_same_v<abi::ext::common_t<R, A, B>, R>); };
	using sc = abi::scalar;
	constexpr unsigned common = Common<av<4, 16>, av<4, 16>, av<4, 16>>::n + Common<av<4, 16>, av<4, 32>, av<4, 32>>::n + Common<av<4, 16>, av<8, 32>, av<8, 32>>::n + Common<av<4, 32>, av<8, 16>, av<8, 32>>::n + Common<av<4, 0>, av<3, 0>, av<4, 0>>::n + Common<av<4, 16>, sc, av<4, 16>>::n + Common<av<4, 0>, sc, av<4, 0>>::n + Common<av<4, SIZE_MAX>, av<4, SIZE_MAX>, av<4, SIZE_MAX>>::n + CHECK(std::is_same_v<abi::ext::common_t<av<4, 16>>, av<4, 16>>)
		+ CHECK(std::is_same_v<abi::ext::common_t<sc>, sc>) + Common<sc, sc, sc>::n
		;
	// tags
	constexpr unsigned tags = CHECK(is_simd_flag_type_v<vector_aligned_tag>) + CHECK(is_simd_flag_type_v<element_aligned_tag>) + CHECK(is_simd_flag_type_v<overaligned_tag<16>>) + CHECK(is_simd_flag_type_v<overaligned_tag<128>>) + CHECK(!is_simd_flag_type_v<int>) + CHECK(!is_simd_flag_type_v<sc>) + CHECK(std::is_same_v<std::remove_const_t<decltype(vector_aligned)>, vector_aligned_tag>) + CHECK(std::is_same_v<std::remove_const_t<decltype(element_aligned)>, element_aligned_tag>) + CHECK(std::is_same_v<std::remove_const_t<decltype(overaligned<32>)>, overaligned_tag<32>>) + CHECK(!is_abi_tag_v<vector_aligned_tag>) + CHECK(!is_abi_tag_v<int>) + CHECK(!is_simd_v<int>) + CHECK(is_abi_tag_v<sc>) + CHECK(is_abi_tag_v<av<7, 16>>);
}
#if VP_PART == 0
#define TYPES(X) X(std::int8_t) X(std::uint8_t) X(char)
#elif VP_PART == 1
#define TYPES(X) X(std::int16_t) X(std::uint16_t)
#elif VP_PART == 2
#define TYPES(X) X(std::int32_t) X(std::uint32_t) X(float)
#else
#define TYPES(X) X(std::int64_t) X(std::uint64_t) X(double)
#endif
#define SUM(T) + w::Type<T>::n + w::Type<T>::n2 + w::Type<T>::n3
extern "C" const unsigned vp_obligations = w::common + w::tags TYPES(SUM);
