// A12: horizontal reductions.  Compared up to re-association (flag 4: sums, products, minima, maxima and the
// opaque associative-commutative operation vp_ac are compared as multisets of their operands).
#include "probe.hpp"
#include <functional>
#include <algorithm>
using namespace vp;
extern "C" { int8_t vp_ac_i8(int8_t, int8_t); int16_t vp_ac_i16(int16_t, int16_t); int32_t vp_ac_i32(int32_t, int32_t); int64_t vp_ac_i64(int64_t, int64_t); float vp_ac_f32(float, float); double vp_ac_f64(double, double); }
static inline int8_t acop(int8_t a, int8_t b) { return vp_ac_i8(a, b); }
static inline int16_t acop(int16_t a, int16_t b) { return vp_ac_i16(a, b); }
static inline int32_t acop(int32_t a, int32_t b) { return vp_ac_i32(a, b); }
static inline int64_t acop(int64_t a, int64_t b) { return vp_ac_i64(a, b); }
static inline uint8_t acop(uint8_t a, uint8_t b) { return static_cast<uint8_t>(vp_ac_i8(static_cast<int8_t>(a), static_cast<int8_t>(b))); }
static inline uint16_t acop(uint16_t a, uint16_t b) { return static_cast<uint16_t>(vp_ac_i16(static_cast<int16_t>(a), static_cast<int16_t>(b))); }
static inline uint32_t acop(uint32_t a, uint32_t b) { return static_cast<uint32_t>(vp_ac_i32(static_cast<int32_t>(a), static_cast<int32_t>(b))); }
static inline uint64_t acop(uint64_t a, uint64_t b) { return static_cast<uint64_t>(vp_ac_i64(static_cast<int64_t>(a), static_cast<int64_t>(b))); }
static inline float acop(float a, float b) { return vp_ac_f32(a, b); }
static inline double acop(double a, double b) { return vp_ac_f64(a, b); }
// an operation on vectors only, as the contract of reduce also allows
struct simd_only { template<class T, class A> simd<T, A> operator()(const simd<T, A> &a, const simd<T, A> &b) const { return a + b; } };

#define FOLD(NAME, CALL, E) struct NAME { template<class V> static auto impl(const V &v) { return CALL; } \
	template<class V> static auto ref(const void *p) { using T = typename V::value_type; T a = Meta<V>::get(p, 0); for (unsigned i = 1; i < Meta<V>::N; ++i) { const T b = Meta<V>::get(p, i); a = static_cast<T>(E); } return a; } };
// minima and maxima of NaN are not promised
#define FOLDN(NAME, CALL, E) struct NAME { template<class V> static auto impl(const V &v) { return CALL; } \
	template<class V> static auto ref(const void *p) { using T = typename V::value_type; T a = Meta<V>::get(p, 0); for (unsigned i = 1; i < Meta<V>::N; ++i) { const T b = Meta<V>::get(p, i); a = static_cast<T>(E); } return a; } \
	template<class V> static bool ok(const void *p) { bool r = true; for (unsigned i = 0; i < Meta<V>::N; ++i) { const auto b = Meta<V>::get(p, i); r = r & (b == b); } return r; } };
FOLD(reduce_, dpm::reduce(v), a + b)
FOLD(reduce_plus_t, dpm::reduce(v, std::plus<typename V::value_type>{}), a + b)
FOLD(reduce_mul_, dpm::reduce(v, std::multiplies<>{}), a * b)
FOLD(reduce_and_, dpm::reduce(v, std::bit_and<>{}), a & b)
FOLD(reduce_or_, dpm::reduce(v, std::bit_or<>{}), a | b)
FOLD(reduce_xor_, dpm::reduce(v, std::bit_xor<>{}), a ^ b)
FOLD(reduce_custom, dpm::reduce(v, [](typename V::value_type a, typename V::value_type b) { return acop(a, b); }), acop(a, b))
FOLD(reduce_simd_only, dpm::reduce(v, simd_only{}), a + b)
FOLD(hadd_, dpm::ext::hadd(v), a + b)
FOLD(hmul_, dpm::ext::hmul(v), a * b)
FOLD(hand_, dpm::ext::hand(v), a & b)
FOLD(hor_, dpm::ext::hor(v), a | b)
FOLD(hxor_, dpm::ext::hxor(v), a ^ b)
FOLDN(reduce_min_, dpm::reduce_min(v), b < a ? b : a)
FOLDN(reduce_max_, dpm::reduce_max(v), a < b ? b : a)
template<class OP, class V> constexpr Probe red(const char *op, const char *t, const char *abi) { Probe p = Red<OP, typename V::value_type, V>::mk("A12", op, t, abi); p.flags = 4; if (p.args[0].mode == FP) p.args[0].mode = FPZ; return p; }
#define R(AB, OP, T) red<OP, vec<T, AB>>(#OP, #T, #AB),
#define COMMON(AB, T) R(AB, reduce_, T) R(AB, reduce_plus_t, T) R(AB, reduce_mul_, T) R(AB, reduce_custom, T) R(AB, reduce_simd_only, T) R(AB, hadd_, T) R(AB, hmul_, T) R(AB, reduce_min_, T) R(AB, reduce_max_, T)
#define BITOP(AB, T) R(AB, reduce_and_, T) R(AB, reduce_or_, T) R(AB, reduce_xor_, T) R(AB, hand_, T) R(AB, hor_, T) R(AB, hxor_, T)
#define INTEG(T, ...) OVER(COMMON, T) OVER(BITOP, T)
#define FLOAT(T, ...) OVER(COMMON, T)
#define WIDE(X, T) X(wid, T) X(odd, T)
#define OVER(X, T) X(v128, T) X(v256, T) X(fix, T) X(sml, T) X(sca, T) X(pak, T) WIDE(X, T)
#if VP_PART == 0
PROBES { VP_SINTS(INTEG) };
#elif VP_PART == 1
PROBES { VP_UINTS(INTEG) };
#elif VP_PART == 2
PROBES { VP_FLTS(FLOAT) };
#else
#define S_R(NN, AL, TT, OP) red<OP, simd<TT, aligned_vector<NN, AL>>>(#OP, #TT, "a" #AL "x" #NN),
PROBES { VP_SIZES(S_R, reduce_custom) VP_SIZES(S_R, hadd_) VP_SIZES(S_R, hmul_) VP_SIZES(S_R, reduce_min_) VP_SIZES(S_R, reduce_max_) };
#endif
