// A09: blend, min, max, minmax, clamp.
#include "probe.hpp"
#include <algorithm>
using namespace vp;
struct blend_ { template<class M, class V> static V impl(const M &m, const V &a, const V &b) { return blend(m, a, b); } template<class T> static T lane(bool m, T a, T b) { return m ? a : b; } };
struct blend_mask { template<class M> static M impl(const M &m, const M &a, const M &b) { return blend(m, a, b); } static bool lane(bool m, bool a, bool b) { return m ? a : b; } };
struct blend_scalar { template<class T> static T impl(bool m, T a, T b) { return dpm::blend(m, a, b); } template<class T> static T lane(bool m, T a, T b) { return m ? a : b; } };
struct min_v { template<class V, class W> static V impl(const V &a, const W &b) { return dpm::min(a, b); } template<class T> static T lane(T a, T b) { return b < a ? b : a; } };
struct max_v { template<class V, class W> static V impl(const V &a, const W &b) { return dpm::max(a, b); } template<class T> static T lane(T a, T b) { return a < b ? b : a; } };
struct clamp_v { template<class V, class W> static V impl(const V &x, const W &a, const W &b) { return dpm::clamp(x, a, b); } template<class T> static T lane(T x, T a, T b) { return x < a ? a : b < x ? b : x; } template<class T> static bool ok(T, T a, T b) { return a <= b; } };
// minmax gives {min, max}; which of two equal or unordered elements it picks is not promised
template<class V, class W> struct MinMax {
	using T = typename V::value_type;
	static void I(void *o, void *p, void *k, void *a, void *b, void *) { const auto r = dpm::minmax(load<V>(a), load<W>(b)); store<V>(o, r.first); store<V>(p, r.second); }
	static void R(void *o, void *p, void *k, void *a, void *b, void *) {
		for (unsigned i = 0; i < Meta<V>::N; ++i) {
			const T x = Meta<V>::get(a, i), y = Meta<W>::get(b, i);
			Meta<bool>::put(static_cast<char *>(k) + i, 0, x <= y || y <= x);
			Meta<V>::put(o, i, y < x ? y : x); Meta<V>::put(p, i, x < y ? y : x);
		}
	}
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { Arg o = Meta<V>::out; if (o.mode == FP) o.mode = FPZ; return {"A09", op, t, abi, &I, &R, 5, 0, {o, o, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, Meta<V>::in, Meta<W>::in}}; }
};
#define ALLOF(AB, T) P_VMVV(AB, "A09", blend_, T) Lane<blend_mask, msk<T, AB>, msk<T, AB>, msk<T, AB>, msk<T, AB>>::mk("A09", "blend_mask", #T, #AB), \
	P_VVV(AB, "A09", min_v, T) P_VVV(AB, "A09", max_v, T) P_VVS(AB, "A09", min_v, T) P_VVS(AB, "A09", max_v, T) P_VVVV(AB, "A09", clamp_v, T) P_VVSS(AB, "A09", clamp_v, T) \
	MinMax<vec<T, AB>, vec<T, AB>>::mk("minmax", #T, #AB), MinMax<vec<T, AB>, T>::mk("minmax_scalar", #T, #AB),
#define EACH(T, ...) ALLOF(v128, T) ALLOF(v256, T) ALLOF(fix, T) ALLOF(sml, T) ALLOF(sca, T) ALLOF(pak, T) WIDE(ALLOF, T) Lane<blend_scalar, T, bool, T, T>::mk("A09", "blend_scalar", #T, "-"),
#define WIDE(X, T) X(wid, T) X(odd, T)
#if VP_PART == 0
PROBES { VP_SINTS(EACH) };
#elif VP_PART == 1
PROBES { VP_UINTS(EACH) };
#else
PROBES { VP_FLTS(EACH) };
#endif
