// A22: one program per VP_REJECT that must not compile, each beside an accepted neighbour (VP_OK) that must.
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <string>
using namespace dpm;
template<std::size_t N, std::size_t A = 0> using av = simd_abi::ext::aligned_vector<N, A>;
using T = VP_T; using Abi = VP_ABI; using V = simd<T, Abi>; using M = simd_mask<T, Abi>;
constexpr std::size_t N = V::size();
#ifdef VP_OK
constexpr std::size_t bad = N - 1; using BadT = T; using Flag = element_aligned_tag; template<class X> using Same = simd<X, simd_abi::deduce_t<X, N>>; constexpr unsigned D = std::numeric_limits<T>::digits - 1; using Elem = T;
#else
constexpr std::size_t bad = N; using BadT = std::string; using Flag = int; template<class X> using Same = simd<X, simd_abi::deduce_t<X, N + 1>>; constexpr unsigned D = std::numeric_limits<T>::digits + 1; using Elem = std::string;
#endif
template<std::size_t... I> auto many(const auto &x, std::index_sequence<I...>) { return ext::shuffle<(I == 1 ? bad : 0)...>(x); }
#if VP_REJECT == 0
auto f(const V &v) { return ext::shuffle<bad>(v); }
#elif VP_REJECT == 1
auto f(const V &v) { return many(v, std::make_index_sequence<N>{}); }
#elif VP_REJECT == 2
auto f(const V &v) { return ext::shuffle<bad, bad>(v); }
#elif VP_REJECT == 3
auto f(const M &v) { return ext::shuffle<bad>(v); }
#elif VP_REJECT == 4
auto f(const M &v) { return many(v, std::make_index_sequence<N>{}); }
#elif VP_REJECT == 5
auto f(const V &v) { return simd_cast<Same<double>>(v); }
#elif VP_REJECT == 6
auto f(const V &v) { return static_simd_cast<Same<float>>(v); }
#elif VP_REJECT == 7
auto f(const Elem *p) { return V{p, element_aligned}; }
#elif VP_REJECT == 8
void f(V &v, const T *p) { v.copy_from(p, Flag{}); }
#elif VP_REJECT == 9
void f(const V &v, T *p) { v.copy_to(p, Flag{}); }
#elif VP_REJECT == 10
void f(const V &v, Elem *p) { v.copy_to(p, element_aligned); }
#elif VP_REJECT == 11
void f(M &v, const bool *p) { v.copy_from(p, Flag{}); }
#elif VP_REJECT == 12
auto f(const V &a, const Same<T> &b) { return a + static_cast<V>(b); }
#elif VP_REJECT == 13
auto f(const BadT &x) { return V{static_cast<T>(0)} + x; }
#elif VP_REJECT == 14
auto f(const V &v) { return ext::lsl<D>(v); }
#elif VP_REJECT == 15
auto f(const V &v) { return ext::lsr<D>(v); }
#endif
