// A08: masked copy_from / copy_to and masked memory constructors.
// "half" probes: memory holds only the first half of the elements and the mask selects none of the others.
#include "probe.hpp"
#include "memory.hpp"
using namespace vp;
template<class V> using mask_of = typename V::mask_type;
template<class V, unsigned P, class M> static inline bool sel(const void *m, bool &fits) {
	fits = true;
	for (unsigned i = P; i < Meta<V>::N; ++i) fits = fits & !Meta<M>::get(m, i);
	return fits;
}
// how = 0 const pointer, 1 mutable pointer, 2 constructor (only the selected elements are promised)
template<class V, class U, class F, int how, bool half> struct MFrom {
	using M = mask_of<V>;
	static constexpr unsigned N = Meta<V>::N, P = half ? N - N / 2 : N;
	static void I(void *o, void *k, void *a, void *m, void *, void *) {
		if constexpr (how == 0) { V v = load<V>(o); v.copy_from(static_cast<const U *>(a), load<M>(m), F{}); store<V>(o, v); }
		else if constexpr (how == 1) { V v = load<V>(o); v.copy_from(static_cast<U *>(a), load<M>(m), F{}); store<V>(o, v); }
		else store<V>(o, V(static_cast<const U *>(a), load<M>(m), F{}));
	}
	static void R(void *o, void *k, void *a, void *m, void *, void *) {
		bool fits; sel<V, P, M>(m, fits);
		for (unsigned i = 0; i < N; ++i) {
			const bool b = Meta<M>::get(m, i); U x{}; if (i < P) x = rd<U>(a, i);
			const bool d = i >= P || !b || defined<elem_t<V>, U>(x);
			Meta<bool>::put(static_cast<char *>(k) + i, 0, fits & d & (how != 2 || b));
			if (d && b) Meta<V>::put(o, i, static_cast<elem_t<V>>(x));
		}
	}
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A08", op, t, abi, &I, &R, 4, 0, {how == 2 ? Meta<V>::out : Meta<V>::inout, {OKARG, N, 1, N, 1, 0}, buf_in<U>(P, promised<V, U, F>()), Meta<M>::in}}; }
};
template<class V, class U, class F, bool half> struct MTo {
	using M = mask_of<V>;
	static constexpr unsigned N = Meta<V>::N, P = half ? N - N / 2 : N;
	static void I(void *o, void *k, void *a, void *m, void *, void *) { const V v = load<V>(a); v.copy_to(static_cast<U *>(o), load<M>(m), F{}); }
	static void R(void *o, void *k, void *a, void *m, void *, void *) {
		bool fits; sel<V, P, M>(m, fits);
		for (unsigned i = 0; i < P; ++i) {
			const bool b = Meta<M>::get(m, i); const auto x = Meta<V>::get(a, i); const bool d = !b || defined<U, elem_t<V>>(x);
			Meta<bool>::put(static_cast<char *>(k) + i, 0, fits & d);
			if (d && b) static_cast<U *>(o)[i] = static_cast<U>(x);
		}
	}
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A08", op, t, abi, &I, &R, 4, 0, {buf_out<U>(P, promised<V, U, F>(), fpm<U>), {OKARG, P, 1, P, 1, 0}, Meta<V>::in, Meta<M>::in}}; }
};
#define S_(x) #x
#define PS(how) (how == 0 ? "" : how == 1 ? "_mut" : "_ctor")
#define MF(V, U, F, how, half, NM, T, AB) MFrom<V, U, typename fl<U>::F, how, half>::mk(how == 0 ? NM "masked_from_" S_(U) "_" S_(F) S_(half) : how == 1 ? NM "masked_from_mut_" S_(U) "_" S_(F) : NM "masked_ctor_" S_(U) "_" S_(F), T, AB),
#define MT(V, U, F, half, NM, T, AB) MTo<V, U, typename fl<U>::F, half>::mk(NM "masked_to_" S_(U) "_" S_(F) S_(half), T, AB),
#define SAME(T, AB) \
	MF(VE(T, AB), T, e, 0, 0, "", #T, #AB) MF(VE(T, AB), T, e, 0, 1, "", #T, #AB) MF(VE(T, AB), T, v, 0, 0, "", #T, #AB) MF(VE(T, AB), T, v, 0, 1, "", #T, #AB) MF(VE(T, AB), T, x, 0, 0, "", #T, #AB) \
	MF(VE(T, AB), T, v, 1, 0, "", #T, #AB) MF(VE(T, AB), T, e, 1, 0, "", #T, #AB) MF(VE(T, AB), T, e, 2, 0, "", #T, #AB) MF(VE(T, AB), T, v, 2, 0, "", #T, #AB) \
	MT(VE(T, AB), T, e, 0, "", #T, #AB) MT(VE(T, AB), T, e, 1, "", #T, #AB) MT(VE(T, AB), T, v, 0, "", #T, #AB) MT(VE(T, AB), T, v, 1, "", #T, #AB) MT(VE(T, AB), T, x, 0, "", #T, #AB)
#define CONV(T, U, AB) MF(VE(T, AB), U, v, 0, 0, "", #T, #AB) MF(VE(T, AB), U, e, 2, 0, "", #T, #AB) MT(VE(T, AB), U, v, 0, "", #T, #AB) MT(VE(T, AB), U, e, 1, "", #T, #AB)
#define MSK(T, AB) \
	MF(ME(T, AB), bool, e, 0, 0, "mask_", #T, #AB) MF(ME(T, AB), bool, e, 0, 1, "mask_", #T, #AB) MF(ME(T, AB), bool, v, 0, 0, "mask_", #T, #AB) MF(ME(T, AB), bool, x, 1, 0, "mask_", #T, #AB) MF(ME(T, AB), bool, v, 2, 0, "mask_", #T, #AB) \
	MT(ME(T, AB), bool, e, 0, "mask_", #T, #AB) MT(ME(T, AB), bool, e, 1, "mask_", #T, #AB) MT(ME(T, AB), bool, v, 0, "mask_", #T, #AB) MT(ME(T, AB), bool, x, 0, "mask_", #T, #AB)
#define WIDE(X, ...) X(__VA_ARGS__, wid) X(__VA_ARGS__, odd)
#define OVER(X, ...) X(__VA_ARGS__, v128) X(__VA_ARGS__, v256) X(__VA_ARGS__, fix) X(__VA_ARGS__, sml) X(__VA_ARGS__, sca) X(__VA_ARGS__, pak) WIDE(X, __VA_ARGS__)
#define SAMES(T, ...) OVER(SAME, T)
#define MSKS(T, ...) OVER(MSK, T)
#define CONVS(T, ...) OVER(CONV, T, int32_t) OVER(CONV, T, double) OVER(CONV, T, int8_t)
#if VP_PART == 0
PROBES { VP_SINTS(SAMES) };
#elif VP_PART == 1
PROBES { VP_UINTS(SAMES) };
#elif VP_PART == 2
PROBES { VP_FLTS(SAMES) };
#elif VP_PART == 3
PROBES { VP_ALL(MSKS) };
#elif VP_PART == 4
PROBES { VP_SINTS(CONVS) };
#elif VP_PART == 5
PROBES { VP_UINTS(CONVS) };
#else
PROBES { VP_FLTS(CONVS) };
#endif
