// A13: floating-point classification and quiet comparisons.
#include "probe.hpp"
#include <bit>
using namespace vp;
template<class T> using ub = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
template<class T> static inline ub<T> mag(T x) { return static_cast<ub<T>>(std::bit_cast<ub<T>>(x) & ~(ub<T>{1} << (sizeof(T) * 8 - 1))); }
template<class T> constexpr ub<T> inff = std::bit_cast<ub<T>>(std::numeric_limits<T>::infinity());
template<class T> constexpr ub<T> minn = std::bit_cast<ub<T>>(std::numeric_limits<T>::min());
#define CLS(NAME, E) struct NAME##_ { template<class V> static auto impl(const V &x) { return dpm::NAME(x); } template<class T> static bool lane(T x) { return E; } };
CLS(isnan, mag(x) > inff<T>)
CLS(isinf, mag(x) == inff<T>)
CLS(isfinite, mag(x) < inff<T>)
CLS(isnormal, (mag(x) >= minn<T> && mag(x) < inff<T>))
CLS(signbit, std::bit_cast<ub<T>>(x) != mag(x))
struct fpclassify_ { template<class V> static auto impl(const V &x) { return dpm::fpclassify(x); }
	template<class T> static int lane(T x) { const auto m = mag(x); return m > inff<T> ? FP_NAN : m == inff<T> ? FP_INFINITE : m == 0 ? FP_ZERO : m < minn<T> ? FP_SUBNORMAL : FP_NORMAL; } };
#define CMP(NAME, E) struct NAME##_ { template<class V> static auto impl(const V &a, const V &b) { return dpm::NAME(a, b); } template<class T> static bool lane(T a, T b) { return E; } };
CMP(isgreater, a > b)
CMP(isgreaterequal, a >= b)
CMP(isless, a < b)
CMP(islessequal, a <= b)
CMP(islessgreater, (a < b) | (a > b))
CMP(isunordered, (a != a) | (b != b))
#define P_IV(AB, PR, OP, T) Lane<OP, std::remove_cvref_t<decltype(OP::impl(std::declval<vec<T, AB>>()))>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
// integer and mixed arguments are promoted to double
#define P_II(AB, PR, OP, T) Lane<OP, std::remove_cvref_t<decltype(OP::impl(std::declval<vec<T, AB>>()))>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#if VP_PART == 0
PROBES {
	FLTS(P_MV, "A13", isnan_) FLTS(P_MV, "A13", isinf_) FLTS(P_MV, "A13", isfinite_) FLTS(P_MV, "A13", isnormal_) FLTS(P_MV, "A13", signbit_) FLTS(P_IV, "A13", fpclassify_)
};
#elif VP_PART == 1
PROBES {
	FLTS(P_MVV, "A13", isgreater_) FLTS(P_MVV, "A13", isgreaterequal_) FLTS(P_MVV, "A13", isless_) FLTS(P_MVV, "A13", islessequal_) FLTS(P_MVV, "A13", islessgreater_) FLTS(P_MVV, "A13", isunordered_)
};
#else
template<class OP, class U> struct Prom { template<class V> static auto impl(const V &x) { return OP::impl(x); } template<class T> static auto lane(T x) { return OP::lane(static_cast<double>(x)); } };
template<class OP> struct Mixed { template<class V, class W> static auto impl(const V &a, const W &b) { return OP::impl2(a, b); } };
#define MIX(NAME) struct NAME##_m { template<class V, class W> static auto impl(const V &a, const W &b) { return dpm::NAME(a, b); } template<class T, class U> static bool lane(T a, U b) { return NAME##_::lane(static_cast<double>(a), static_cast<double>(b)); } };
MIX(isgreater) MIX(isgreaterequal) MIX(isless) MIX(islessequal) MIX(islessgreater) MIX(isunordered)
template<class OP, class T, class AB> constexpr Probe prom(const char *op, const char *t, const char *abi) { using V = simd<T, AB>; return Lane<Prom<OP, T>, std::remove_cvref_t<decltype(OP::impl(std::declval<V>()))>, V>::mk("A13", op, t, abi); }
template<class OP, class T, class U, class AB> constexpr Probe mixd(const char *op, const char *t, const char *abi) { using V = simd<T, AB>; using W = simd<U, AB>; return Lane<OP, std::remove_cvref_t<decltype(OP::impl(std::declval<V>(), std::declval<W>()))>, V, W>::mk("A13", op, t, abi); }
#define PI1(OP, T) prom<OP##_, T, fixed_size<4>>(#OP, #T, "fixed4"), prom<OP##_, T, packed_buffer<3>>(#OP, #T, "pak"),
#define PIS(T, ...) PI1(isnan, T) PI1(isinf, T) PI1(isfinite, T) PI1(isnormal, T) PI1(signbit, T) PI1(fpclassify, T)
#define PM1(OP, T, U) mixd<OP##_m, T, U, fixed_size<4>>(#OP, #T "," #U, "fixed4"), mixd<OP##_m, T, U, packed_buffer<3>>(#OP, #T "," #U, "pak"),
#define PMS(T, U) PM1(isgreater, T, U) PM1(isgreaterequal, T, U) PM1(isless, T, U) PM1(islessequal, T, U) PM1(islessgreater, T, U) PM1(isunordered, T, U)
PROBES { VP_INTS(PIS) PMS(float, double) PMS(double, float) PMS(int32_t, double) PMS(float, int32_t) PMS(int64_t, uint8_t) PMS(double, int16_t) };
#endif
