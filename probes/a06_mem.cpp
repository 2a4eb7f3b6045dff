// A06: loading, storing, construction and element access.
// Memory arguments are separate objects of exactly size() elements, aligned exactly as the flag promises.
#include "probe.hpp"
#include "memory.hpp"
using namespace vp;

// how = 0 copy_from(const U*), 1 copy_from(U*), 2 constructor
template<class V, class U, class F, int how> struct From {
	static void I(void *o, void *k, void *a, void *, void *, void *) {
		if constexpr (how == 0) { V v; v.copy_from(static_cast<const U *>(a), F{}); store<V>(o, v); }
		else if constexpr (how == 1) { V v; v.copy_from(static_cast<U *>(a), F{}); store<V>(o, v); }
		else store<V>(o, V(static_cast<const U *>(a), F{}));
	}
	static void R(void *o, void *k, void *a, void *, void *, void *) {
		for (unsigned i = 0; i < Meta<V>::N; ++i) { const U x = rd<U>(a, i); const bool d = defined<elem_t<V>, U>(x); Meta<bool>::put(static_cast<char *>(k) + i, 0, d); if (d) Meta<V>::put(o, i, static_cast<elem_t<V>>(x)); }
	}
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 3, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, buf_in<U>(Meta<V>::N, promised<V, U, F>())}}; }
};
template<class V, class U, class F> struct To {
	static void I(void *o, void *k, void *a, void *, void *, void *) { const V v = load<V>(a); v.copy_to(static_cast<U *>(o), F{}); }
	static void R(void *o, void *k, void *a, void *, void *, void *) {
		for (unsigned i = 0; i < Meta<V>::N; ++i) { const auto x = Meta<V>::get(a, i); const bool d = defined<U, elem_t<V>>(x); Meta<bool>::put(static_cast<char *>(k) + i, 0, d); if (d) static_cast<U *>(o)[i] = static_cast<U>(x); }
	}
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 3, 0, {buf_out<U>(Meta<V>::N, promised<V, U, F>(), fpm<U>), {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, Meta<V>::in}}; }
};
#define S_(x) #x
#define FROM(V, U, F, how, NM, T, AB) From<V, U, typename fl<U>::F, how>::mk(NM "_" S_(U) "_" S_(F), T, AB),
#define TO(V, U, F, T, AB) To<V, U, typename fl<U>::F>::mk("copy_to_" S_(U) "_" S_(F), T, AB),
// same type, every flag and pointer kind
#define SAME(AB, T) FROM(VE(T, AB), T, e, 0, "copy_from", #T, #AB) FROM(VE(T, AB), T, v, 0, "copy_from", #T, #AB) FROM(VE(T, AB), T, o, 0, "copy_from", #T, #AB) FROM(VE(T, AB), T, x, 0, "copy_from", #T, #AB) \
	FROM(VE(T, AB), T, v, 1, "copy_from_mut", #T, #AB) FROM(VE(T, AB), T, e, 1, "copy_from_mut", #T, #AB) FROM(VE(T, AB), T, e, 2, "ctor", #T, #AB) FROM(VE(T, AB), T, v, 2, "ctor", #T, #AB) \
	TO(VE(T, AB), T, e, #T, #AB) TO(VE(T, AB), T, v, #T, #AB) TO(VE(T, AB), T, o, #T, #AB) TO(VE(T, AB), T, x, #T, #AB)
#define CONV(AB, T, U) FROM(VE(T, AB), U, v, 0, "copy_from", #T, #AB) TO(VE(T, AB), U, v, #T, #AB)
#define CONVE(AB, T, U) FROM(VE(T, AB), U, e, 2, "ctor", #T, #AB) TO(VE(T, AB), U, e, #T, #AB)
#define WIDE(X, ...) X(wid, __VA_ARGS__) X(odd, __VA_ARGS__)
#define CV(U, T) CONV(v128, T, U) CONV(v256, T, U) CONV(fix, T, U) CONV(sml, T, U) CONV(sca, T, U) CONV(pak, T, U) CONVE(fix, T, U) CONVE(pak, T, U) WIDE(CONV, T, U)
#define SAMES(T, ...) SAME(v128, T) SAME(v256, T) SAME(fix, T) SAME(sml, T) SAME(sca, T) SAME(pak, T) WIDE(SAME, T)

// masks
#define MSAME(AB, T) FROM(ME(T, AB), bool, e, 0, "mask_copy_from", #T, #AB) FROM(ME(T, AB), bool, v, 1, "mask_copy_from_mut", #T, #AB) FROM(ME(T, AB), bool, x, 0, "mask_copy_from", #T, #AB) FROM(ME(T, AB), bool, v, 2, "mask_ctor", #T, #AB) \
	To<ME(T, AB), bool, typename fl<bool>::e>::mk("mask_copy_to_e", #T, #AB), To<ME(T, AB), bool, typename fl<bool>::v>::mk("mask_copy_to_v", #T, #AB), To<ME(T, AB), bool, typename fl<bool>::x>::mk("mask_copy_to_x", #T, #AB),
#define MSAMES(T, ...) MSAME(v128, T) MSAME(v256, T) MSAME(fix, T) MSAME(sml, T) MSAME(sca, T) MSAME(pak, T) WIDE(MSAME, T)

// broadcast from the element type and from another type, generators
struct bcast { template<class V> struct as {}; };
template<class V, class S> struct Bcast {
	static void I(void *o, void *k, void *a, void *, void *, void *) { store<V>(o, V(load<S>(a))); }
	static void R(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < Meta<V>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, defined<elem_t<V>, S>(get<S>(a, 0))); if (defined<elem_t<V>, S>(get<S>(a, 0))) Meta<V>::put(o, i, static_cast<elem_t<V>>(get<S>(a, 0))); } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 3, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, Meta<S>::in}}; }
};
// the generator is called once per element; its result for element i is an arbitrary value
template<class V> struct Gen {
	using E = elem_t<V>;
	static void I(void *o, void *k, void *a, void *, void *, void *) { store<V>(o, V([a](std::size_t i) -> E { return rd<E>(a, i); })); }
	static void R(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < Meta<V>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, true); Meta<V>::put(o, i, rd<E>(a, i)); } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 3, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, buf_in<E>(Meta<V>::N, alignof(E))}}; }
};
template<class V> struct GenIc { // index usable as a compile-time constant per the generator requirement
	using E = elem_t<V>;
	static void I(void *o, void *k, void *a, void *, void *, void *) { store<V>(o, V([](auto i) -> E { return static_cast<E>(i * 3 + 1); })); }
	static void R(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < Meta<V>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, true); Meta<V>::put(o, i, static_cast<E>(i * 3 + 1)); } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 2, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}}}; }
};
// subscript with a run-time index below size()
template<class V, int how> struct SubRd {
	using E = elem_t<V>;
	static void I(void *o, void *k, void *a, void *b, void *, void *) { const std::size_t i = load<std::size_t>(b); V v = load<V>(a); if constexpr (how) { const V &c = v; store<E>(o, static_cast<E>(c[i])); } else store<E>(o, static_cast<E>(v[i])); }
	static void R(void *o, void *k, void *a, void *b, void *, void *) { const std::size_t j = load<std::size_t>(b); Meta<bool>::put(k, 0, j < Meta<V>::N); E r{}; for (unsigned i = 0; i < Meta<V>::N; ++i) if (i == j) r = Meta<V>::get(a, i); Meta<E>::put(o, 0, r); }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 4, 0, {Meta<E>::out, {OKARG, 1, 1, 1, 1, 0}, Meta<V>::in, IDX}}; }
};
template<class V> struct SubWr {
	using E = elem_t<V>;
	static void I(void *o, void *k, void *a, void *b, void *c, void *) { const std::size_t i = load<std::size_t>(b); V v = load<V>(a); v[i] = load<E>(c); store<V>(o, v); }
	static void R(void *o, void *k, void *a, void *b, void *c, void *) { const std::size_t j = load<std::size_t>(b); for (unsigned i = 0; i < Meta<V>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, j < Meta<V>::N); Meta<V>::put(o, i, i == j ? Meta<E>::get(c, 0) : Meta<V>::get(a, i)); } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 5, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, Meta<V>::in, IDX, Meta<E>::in}}; }
};
// native data: construction from and access through native vectors
template<class V, int how> struct Native {
	static void I(void *o, void *k, void *a, void *, void *, void *) {
		using N = native_data_type_t<V>; constexpr auto n = native_data_size_v<V>;
		V v = load<V>(a); const V &c = v; auto s = to_native_data(c); static_assert(s.size() == n);
		if constexpr (how == 0) { V w; auto d = to_native_data(w); for (std::size_t i = 0; i < n; ++i) d[i] = s[i]; store<V>(o, w); }
		else if constexpr (how == 1) { N arr[n]; for (std::size_t i = 0; i < n; ++i) arr[i] = s[i]; store<V>(o, V(arr)); }
		else store<V>(o, V(std::span<const N, n>(s)));
	}
	static void R(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < Meta<V>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, true); Meta<V>::put(o, i, Meta<V>::get(a, i)); } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A06", op, t, abi, &I, &R, 3, 0, {Meta<V>::out, {OKARG, Meta<V>::N, 1, Meta<V>::N, 1, 0}, Meta<V>::in}}; }
};
#define MISC(AB, T) Bcast<VE(T, AB), T>::mk("broadcast", #T, #AB), Bcast<VE(T, AB), int>::mk("broadcast_int", #T, #AB), Gen<VE(T, AB)>::mk("generator", #T, #AB), GenIc<VE(T, AB)>::mk("generator_index", #T, #AB), \
	SubRd<VE(T, AB), 0>::mk("subscript", #T, #AB), SubRd<VE(T, AB), 1>::mk("subscript_const", #T, #AB), SubWr<VE(T, AB)>::mk("subscript_write", #T, #AB), Native<VE(T, AB), 0>::mk("native_data", #T, #AB), \
	Gen<ME(T, AB)>::mk("mask_generator", #T, #AB), SubRd<ME(T, AB), 0>::mk("mask_subscript", #T, #AB), SubRd<ME(T, AB), 1>::mk("mask_subscript_const", #T, #AB), SubWr<ME(T, AB)>::mk("mask_subscript_write", #T, #AB), Native<ME(T, AB), 0>::mk("mask_native_data", #T, #AB),
#define NAT(AB, T) Native<VE(T, AB), 1>::mk("from_native_array", #T, #AB), Native<VE(T, AB), 2>::mk("from_native_span", #T, #AB), Native<ME(T, AB), 1>::mk("mask_from_native_array", #T, #AB), Native<ME(T, AB), 2>::mk("mask_from_native_span", #T, #AB),
#define MISCS(T, ...) MISC(v128, T) MISC(v256, T) MISC(fix, T) MISC(sml, T) MISC(sca, T) MISC(pak, T) NAT(v128, T) NAT(v256, T) NAT(fix, T) WIDE(MISC, T)
#define TY(N, T) T
#if VP_PART < 10
using TT = std::tuple_element_t<VP_PART, std::tuple<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float, double>>;
#define TN (VP_PART == 0 ? "int8" : VP_PART == 1 ? "int16" : VP_PART == 2 ? "int32" : VP_PART == 3 ? "int64" : VP_PART == 4 ? "uint8" : VP_PART == 5 ? "uint16" : VP_PART == 6 ? "uint32" : VP_PART == 7 ? "uint64" : VP_PART == 8 ? "float" : "double")
#undef FROM
#undef TO
#define FROM(V, U, F, how, NM, T, AB) From<V, U, typename fl<U>::F, how>::mk(NM "_" S_(U) "_" S_(F), TN, AB),
#define TO(V, U, F, T, AB) To<V, U, typename fl<U>::F>::mk("copy_to_" S_(U) "_" S_(F), TN, AB),
PROBES { VP_ALL(CV, TT) };
#elif VP_PART == 10
PROBES { VP_SINTS(SAMES) VP_UINTS(SAMES) VP_FLTS(SAMES) };
#elif VP_PART == 11
PROBES { VP_SINTS(MISCS) VP_FLTS(MISCS) };
#elif VP_PART == 12
PROBES { VP_UINTS(MISCS) };
#else
PROBES { VP_ALL(MSAMES) };
#endif
