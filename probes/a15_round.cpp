// A15: rounding functions, in the default rounding mode.
#include "probe.hpp"
using namespace vp;
template<class T> static inline T b1(T x, int m) {
	if constexpr (sizeof(T) == 4) return m == 0 ? __builtin_ceilf(x) : m == 1 ? __builtin_floorf(x) : m == 2 ? __builtin_truncf(x) : m == 3 ? __builtin_roundf(x) : __builtin_rintf(x);
	else return m == 0 ? __builtin_ceil(x) : m == 1 ? __builtin_floor(x) : m == 2 ? __builtin_trunc(x) : m == 3 ? __builtin_round(x) : __builtin_rint(x);
}
#define FN(N, M) struct N##_ { template<class V> static V impl(const V &x) { return dpm::N(x); } template<class T> static T lane(T x) { return b1(x, M); } };
FN(ceil, 0) FN(floor, 1) FN(trunc, 2) FN(round, 3) FN(rint, 4) FN(nearbyint, 4)
template<class I, class T> static inline bool fits(T r) { constexpr T lim = static_cast<T>(std::uint64_t{1} << (sizeof(I) * 8 - 1)); return std::is_signed_v<I> ? r >= -lim && r < lim : r > -1 && r < 2 * lim; }
#define IFN(N, CALL, I, M) struct N##_ { template<class V> static auto impl(const V &x) { return CALL(x); } template<class T> static I lane(T x) { return static_cast<I>(b1(x, M)); } template<class T> static bool ok(T x) { return fits<I>(b1(x, M)); } };
IFN(lround, dpm::lround, long, 3) IFN(llround, dpm::llround, long long, 3) IFN(lrint, dpm::lrint, long, 4) IFN(llrint, dpm::llrint, long long, 4)
IFN(iround32, dpm::ext::iround<std::int32_t>, std::int32_t, 3) IFN(iround64, dpm::ext::iround<std::int64_t>, std::int64_t, 3) IFN(iround16, dpm::ext::iround<std::int16_t>, std::int16_t, 3)
IFN(irint32, dpm::ext::irint<std::int32_t>, std::int32_t, 4) IFN(irint64, dpm::ext::irint<std::int64_t>, std::int64_t, 4) IFN(irint16, dpm::ext::irint<std::int16_t>, std::int16_t, 4)
IFN(itrunc32, dpm::ext::itrunc<std::int32_t>, std::int32_t, 2) IFN(itrunc64, dpm::ext::itrunc<std::int64_t>, std::int64_t, 2) IFN(itrunc16, dpm::ext::itrunc<std::int16_t>, std::int16_t, 2)
IFN(ltrunc, dpm::ext::ltrunc, long, 2) IFN(lltrunc, dpm::ext::lltrunc, long long, 2)
constexpr Probe exact(Probe p) { p.flags |= EXACT; return p; }
#define P_E(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB)),
#define P_I(AB, PR, OP, T) exact(Lane<OP, std::remove_cvref_t<decltype(OP::impl(std::declval<vec<T, AB>>()))>, vec<T, AB>>::mk(PR, #OP, #T, #AB)),
#if VP_PART == 0
PROBES { FLTS(P_E, "A15", ceil_) FLTS(P_E, "A15", floor_) FLTS(P_E, "A15", trunc_) FLTS(P_E, "A15", round_) FLTS(P_E, "A15", rint_) FLTS(P_E, "A15", nearbyint_) };
#elif VP_PART == 1
PROBES { FLTS(P_I, "A15", lround_) FLTS(P_I, "A15", llround_) FLTS(P_I, "A15", lrint_) FLTS(P_I, "A15", llrint_) FLTS(P_I, "A15", ltrunc_) FLTS(P_I, "A15", lltrunc_) };
#elif VP_PART == 2
PROBES { FLTS(P_I, "A15", iround32_) FLTS(P_I, "A15", iround64_) FLTS(P_I, "A15", irint32_) FLTS(P_I, "A15", irint64_) FLTS(P_I, "A15", itrunc32_) FLTS(P_I, "A15", itrunc64_) };
#else
PROBES { FLTS(P_I, "A15", iround16_) FLTS(P_I, "A15", irint16_) FLTS(P_I, "A15", itrunc16_) };
#endif
