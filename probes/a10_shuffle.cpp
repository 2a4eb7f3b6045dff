// A10: shuffle of vectors, masks and scalars with several families of index sequences.
#include "probe.hpp"
#include <utility>
using namespace vp;
template<std::size_t N> struct ident { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return j; } };
template<std::size_t N> struct rever { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return N - 1 - j; } };
template<std::size_t N> struct first { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t) { return 0; } };
template<std::size_t N> struct last_ { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t) { return N - 1; } };
template<std::size_t N> struct rotat { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return (j + 1) % N; } };
template<std::size_t N> struct neigh { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return (j ^ 1) < N ? j ^ 1 : j; } };
template<std::size_t N> struct doubl { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return j / 2; } };
template<std::size_t N> struct evens { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return (2 * j) % N; } };
template<std::size_t N> struct mixed { static constexpr std::size_t M = N; static constexpr std::size_t f(std::size_t j) { return (j * 7 + 3 + j / 3) % N; } };
template<std::size_t N> struct halve { static constexpr std::size_t M = N / 2 + (N == 1); static constexpr std::size_t f(std::size_t j) { return N - 1 - j; } };
template<std::size_t N> struct lower { static constexpr std::size_t M = N / 2 + 1; static constexpr std::size_t f(std::size_t j) { return j; } };
template<std::size_t N> struct upper { static constexpr std::size_t M = N / 2 + (N == 1); static constexpr std::size_t f(std::size_t j) { return N / 2 + j; } };
template<std::size_t N> struct twice { static constexpr std::size_t M = 2 * N; static constexpr std::size_t f(std::size_t j) { return j < N ? j : 2 * N - 1 - j; } };
template<std::size_t N> struct bcast { static constexpr std::size_t M = N + 3; static constexpr std::size_t f(std::size_t) { return N / 2; } };
template<std::size_t N> struct singl { static constexpr std::size_t M = 1; static constexpr std::size_t f(std::size_t) { return N - 1; } };
template<template<std::size_t> class PAT> struct Shuf {
	template<class V, std::size_t... J> static auto call(const V &v, std::index_sequence<J...>) { return dpm::ext::shuffle<PAT<V::size()>::f(J)...>(v); }
	template<class V> static auto impl(const V &v) { return call(v, std::make_index_sequence<PAT<V::size()>::M>{}); }
	template<class R, class V> static auto lane(const void *p, unsigned i) { return Meta<V>::get(p, static_cast<unsigned>(PAT<V::size()>::f(i))); }
};
template<class V, template<std::size_t> class PAT> constexpr Probe shuf(const char *op, const char *t, const char *abi) {
	using R = decltype(Shuf<PAT>::impl(std::declval<V>())); static_assert(R::size() == PAT<V::size()>::M);
	Probe p = Map<Shuf<PAT>, R, V>::mk("A10", op, t, abi); p.args[0].mode = BITS; return p;
}
template<class T, std::size_t M> struct ShufS {
	template<std::size_t... J> static auto call(const T &v, std::index_sequence<J...>) { return dpm::ext::shuffle<(J * 0)...>(v); }
	static auto impl(const T &v) { return call(v, std::make_index_sequence<M>{}); }
	template<class R, class V> static auto lane(const void *p, unsigned) { return Meta<V>::get(p, 0); }
};
template<class T, template<class> class AB> struct VV { using v = vec<T, AB>; using m = msk<T, AB>; };
#define P1(K, N, T, AB, PAT) shuf<VV<T, AB>::K, PAT>(N #PAT, #T, #AB),
#define PATS(K, N, T, AB) P1(K, N, T, AB, ident) P1(K, N, T, AB, rever) P1(K, N, T, AB, first) P1(K, N, T, AB, last_) P1(K, N, T, AB, rotat) P1(K, N, T, AB, neigh) P1(K, N, T, AB, doubl) P1(K, N, T, AB, evens) \
	P1(K, N, T, AB, mixed) P1(K, N, T, AB, halve) P1(K, N, T, AB, lower) P1(K, N, T, AB, upper) P1(K, N, T, AB, twice) P1(K, N, T, AB, bcast) P1(K, N, T, AB, singl)
#define VEC1(AB, T) PATS(v, "shuffle_", T, AB)
#define MSK1(AB, T) PATS(m, "mask_shuffle_", T, AB)
#define WIDE(X, T) X(wid, T) X(odd, T)
#define OVER(X, T) X(v128, T) X(v256, T) X(fix, T) X(sml, T) X(sca, T) X(pak, T) WIDE(X, T)
#define EACHV(T, ...) OVER(VEC1, T)
#define EACHM(T, ...) OVER(MSK1, T)
#define SC(T, ...) Map<ShufS<T, 4>, decltype(ShufS<T, 4>::impl(T{})), T>::mk("A10", "shuffle_scalar4", #T, "-"), Map<ShufS<T, 1>, decltype(ShufS<T, 1>::impl(T{})), T>::mk("A10", "shuffle_scalar1", #T, "-"),
#if VP_PART == 0
PROBES { EACHV(int8_t) EACHM(int8_t) };
#elif VP_PART == 1
PROBES { EACHV(int16_t) EACHM(int16_t) };
#elif VP_PART == 2
PROBES { EACHV(int32_t) EACHM(int32_t) };
#elif VP_PART == 3
PROBES { EACHV(int64_t) EACHM(int64_t) };
#elif VP_PART == 4
PROBES { EACHV(float) EACHM(float) };
#elif VP_PART == 5
PROBES { EACHV(double) EACHM(double) };
#elif VP_PART == 6
PROBES { EACHV(uint8_t) EACHV(uint16_t) };
#elif VP_PART == 7
PROBES { EACHV(uint32_t) EACHV(uint64_t) };
#else
PROBES { VP_ALL(SC) };
#endif
