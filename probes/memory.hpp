// Shared by the probes of memory operations: alignment flags, defined conversions, buffers.
#pragma once
#include "probe.hpp"
namespace vp {
template<class V, class U, class F> constexpr unsigned promised() {
	if constexpr (std::is_same_v<F, element_aligned_tag>) return alignof(U);
	else if constexpr (std::is_same_v<F, vector_aligned_tag>) return memory_alignment_v<V, U>;
	else return detail::overaligned_tag_value_v<F>;
}
template<class F, class U> constexpr F flag_of{};
struct over8 {}; // overaligned by at least 8 bytes but never less than the element
template<class U> struct fl { using e = element_aligned_tag; using v = vector_aligned_tag; using o = overaligned_tag<(sizeof(U) > 8 ? sizeof(U) : 8)>; using x = overaligned_tag<64>; };

// conversions that are undefined in C++ are out of scope
template<class To, class From> static inline bool defined(From x) {
	if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To> && !std::is_same_v<To, bool>) {
		constexpr double hi = std::is_signed_v<To> ? static_cast<double>(std::numeric_limits<To>::max() / 2 + 1) * 2 : static_cast<double>(std::numeric_limits<To>::max() / 2 + 1) * 2;
		if constexpr (std::is_signed_v<To>) {
			if constexpr (sizeof(From) == 8 && sizeof(To) < 8) return x > static_cast<From>(-hi - 1) && x < static_cast<From>(hi);
			else if constexpr (sizeof(From) == 4 && sizeof(To) < 4) return x > static_cast<From>(-hi - 1) && x < static_cast<From>(hi);
			else return x >= static_cast<From>(-hi) && x < static_cast<From>(hi);
		}
		else return x > From{-1} && x < static_cast<From>(hi);
	}
	else return true;
}
template<class U> static inline U rd(const void *p, unsigned i) { if constexpr (std::is_same_v<U, bool>) return static_cast<const unsigned char *>(p)[i] != 0; else return static_cast<const U *>(p)[i]; }
template<class U> constexpr Arg buf_in(unsigned n, unsigned al) { return {std::is_same_v<U, bool> ? unsigned(BOOL_IN) : unsigned(BUF_IN), n, sizeof(U), n * (unsigned)sizeof(U), al, BITS}; }
template<class U> constexpr Arg buf_out(unsigned n, unsigned al, unsigned mode) { return {std::is_same_v<U, bool> ? unsigned(BOOL_OUT) : unsigned(BUF_OUT), n, sizeof(U), n * (unsigned)sizeof(U), al, mode}; }
template<class T> constexpr unsigned fpm = std::is_floating_point_v<T> ? FP : BITS;
template<class V> using elem_t = typename Meta<V>::lane_t;
}
#define VE(T, AB) vec<T, AB>
#define ME(T, AB) msk<T, AB>
