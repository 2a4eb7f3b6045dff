// A17: math functions that fall back to the scalar library, and the promoting overloads.
#include "probe.hpp"
#pragma clang diagnostic error "-Wc++11-narrowing"
using namespace vp;
#define U1(N) struct N##_ { template<class V> static auto impl(const V &x) { return dpm::N(x); } template<class T> static auto lane(T x) { return std::N(x); } };
#define U2(N) struct N##_ { template<class V, class W> static auto impl(const V &x, const W &y) { return dpm::N(x, y); } template<class T, class U> static auto lane(T x, U y) { return std::N(x, y); } };
U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U1(sinh) U1(cosh) U1(tanh) U1(asinh) U1(acosh) U1(atanh) U1(exp) U1(exp2) U1(expm1) U1(log) U1(log2) U1(log10) U1(log1p) U1(sqrt) U1(cbrt) U1(erf) U1(erfc) U1(tgamma) U1(lgamma) U1(logb) U1(ilogb)
U2(fmod) U2(remainder) U2(pow) U2(atan2) U2(hypot) U2(nextafter) U2(copysign) U2(fdim) U2(nexttoward)
struct remquo_r { template<class V, class W> static auto impl(const V &x, const W &y) { rebind_simd_t<int, V> q; return dpm::remquo(x, y, &q); } template<class T, class U> static auto lane(T x, U y) { int q; return std::remquo(x, y, &q); } };
struct remquo_q { using quotient = int; template<class V, class W> static auto impl(const V &x, const W &y) { rebind_simd_t<int, V> q; (void)dpm::remquo(x, y, &q); return q; } template<class T, class U> static int lane(T x, U y) { int q; (void)std::remquo(x, y, &q); return q; } };
struct remquo_er { template<class V, class W> static auto impl(const V &x, const W &y) { rebind_simd_t<int, V> q; return dpm::ext::remquo(x, y, q); } template<class T, class U> static auto lane(T x, U y) { int q; return std::remquo(x, y, &q); } };
struct remquo_eq { using quotient = int; template<class V, class W> static auto impl(const V &x, const W &y) { rebind_simd_t<int, V> q; (void)dpm::ext::remquo(x, y, q); return q; } template<class T, class U> static int lane(T x, U y) { int q; (void)std::remquo(x, y, &q); return q; } };
struct sincos_s { template<class V> static auto impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return s; } template<class T> static auto lane(T x) { return std::sin(x); } };
struct sincos_c { template<class V> static auto impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return c; } template<class T> static auto lane(T x) { return std::cos(x); } };
struct rcp_ { template<class V> static auto impl(const V &x) { return dpm::ext::rcp(x); } template<class T> static auto lane(T x) { return std::conditional_t<std::is_same_v<T, float>, float, double>(1) / x; } };
struct rsqrt_ { template<class V> static auto impl(const V &x) { return dpm::ext::rsqrt(x); } template<class T> static auto lane(T x) { return std::conditional_t<std::is_same_v<T, float>, float, double>(1) / std::sqrt(x); } };
struct frexp_pm { template<class V> static auto impl(const V &x) { rebind_simd_t<int, V> e; return dpm::frexp(x, &e); } template<class T> static auto lane(T x) { int e; return std::frexp(x, &e); } };
struct frexp_em { template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; return dpm::ext::frexp(x, e); } template<class T> static auto lane(T x) { int e; return std::frexp(x, &e); } };
struct modf_ef { template<class V> static auto impl(const V &x) { V e; return dpm::ext::modf(x, e); } template<class T> static auto lane(T x) { T e; return std::modf(x, &e); } };
struct modf_ei { template<class V> static auto impl(const V &x) { V e; (void)dpm::ext::modf(x, e); return e; } template<class T> static auto lane(T x) { T e; (void)std::modf(x, &e); return e; } };
// promoting overloads of the functions with an exponent argument, classification and comparison
struct pfrexp_m { template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; return dpm::frexp(x, &e); } template<class T> static auto lane(T x) { int e; return std::frexp(x, &e); } };
struct pfrexp_e { using quotient = int; template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; (void)dpm::frexp(x, &e); return e; } template<class T> static int lane(T x) { int e; (void)std::frexp(x, &e); return e; } };
struct pfrexp_em { template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; return dpm::ext::frexp(x, e); } template<class T> static auto lane(T x) { int e; return std::frexp(x, &e); } };
struct pfrexp_ee { using quotient = int; template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; (void)dpm::ext::frexp(x, e); return e; } template<class T> static int lane(T x) { int e; (void)std::frexp(x, &e); return e; } };
U2(ldexp) U2(scalbn) U2(scalbln)
U1(isnan) U1(isinf) U1(isfinite) U1(isnormal) U1(signbit) U1(fpclassify)
U2(isgreater) U2(isgreaterequal) U2(isless) U2(islessequal) U2(islessgreater) U2(isunordered) U2(fmin) U2(fmax)
struct pfma { template<class V, class W, class X> static auto impl(const V &x, const W &y, const X &z) { return dpm::fma(x, y, z); } template<class T, class U, class X> static double lane(T x, U y, X z) { return static_cast<double>(x) * y + z; } };
struct plerp { template<class V, class W, class X> static auto impl(const V &x, const W &y, const X &z) { return dpm::lerp(x, y, z); } template<class T, class U, class X> static double lane(T x, U y, X z) { return std::lerp(static_cast<double>(x), static_cast<double>(y), static_cast<double>(z)); } };
// the quotient object may have any ABI with the right number of elements
struct remquo_wide { template<class V, class W> static auto impl(const V &x, const W &y) { simd<int, aligned_vector<V::size(), 64>> q; (void)dpm::remquo(x, y, &q); return q; } template<class T, class U> static int lane(T x, U y) { int q; (void)std::remquo(x, y, &q); return q; } };
#define R1(OP, A) std::remove_cvref_t<decltype(OP::impl(std::declval<A>()))>
#define R2(OP, A, B) std::remove_cvref_t<decltype(OP::impl(std::declval<A>(), std::declval<B>()))>
// the result has one element per element of the argument, of the promoted type
template<class R, class A, class T> constexpr bool shaped = std::is_same_v<typename R::value_type, T> && R::size() == A::size();
template<class OP, class A> struct One { using R = R1(OP, A); static_assert(shaped<R, A, std::remove_cvref_t<decltype(OP::lane(std::declval<typename A::value_type>()))>>); using L = Lane<OP, R, A>; };
template<class B, bool = is_simd_v<B>> struct elem { using type = B; };
template<class B> struct elem<B, true> { using type = typename B::value_type; };
template<class OP, class A, class B> struct Two { using R = R2(OP, A, B); static_assert(shaped<R, A, std::remove_cvref_t<decltype(OP::lane(std::declval<typename A::value_type>(), std::declval<typename elem<B>::type>()))>>); using L = Lane<OP, R, A, B>; };
// Promoting overloads: the same function on the arguments converted to double (conversions: A11).
template<class V> auto to_dbl(const V &x) { if constexpr (is_simd_v<V>) return rebind_simd_t<double, V>{x}; else return static_cast<double>(x); }
template<class OP, class A, class... Bs> struct Prom {
	using R = std::remove_cvref_t<decltype(OP::impl(std::declval<A>(), std::declval<Bs>()...))>;
	using E = std::remove_cvref_t<decltype(OP::up(std::declval<A>(), std::declval<Bs>()...))>;
	static constexpr bool quo = requires { typename OP::quotient; }; // the integer object's own type is the caller's choice
	static_assert(quo || std::is_same_v<R, E>, "a promoting overload returns the type the function has for double");
	template<std::size_t... I> static void go(bool im, std::index_sequence<I...>, void *o, void **q) { if (im) store<R>(o, OP::impl(load<A>(q[0]), load<Bs>(q[I + 1])...)); else store<R>(o, R{OP::up(load<A>(q[0]), load<Bs>(q[I + 1])...)}); }
	static void I(void *o, void *k, void *a, void *b, void *c, void *) { void *q[] = {a, b, c}; go(true, std::index_sequence_for<Bs...>{}, o, q); }
	static void F(void *o, void *k, void *a, void *b, void *c, void *) { for (unsigned i = 0; i < Meta<R>::N; ++i) Meta<bool>::put(static_cast<char *>(k) + i, 0, true); void *q[] = {a, b, c}; go(false, std::index_sequence_for<Bs...>{}, o, q); }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A17", op, t, abi, &I, &F, 3 + sizeof...(Bs), 0, {Meta<R>::out, {OKARG, Meta<R>::N, 1, Meta<R>::N, 1, 0}, Meta<A>::in, Meta<Bs>::in...}}; }
};
template<class OP> struct P : OP { template<class... As> static auto up(const As &...a) { return OP::impl(to_dbl(a)...); } };
// the exponent argument keeps its element type
template<class OP> struct X : OP { template<class V, class W> static auto up(const V &a, const W &e) { using D = rebind_simd_t<double, V>; if constexpr (is_simd_v<W>) return OP::impl(D{a}, simd<typename W::value_type, typename D::abi_type>{e}); else return OP::impl(D{a}, e); } };
#define P1(AB, OP, T) Prom<P<OP>, vec<T, AB>>::mk("p_" #OP, #T, #AB),
#define P2(AB, OP, T, U) Prom<P<OP>, vec<T, AB>, simd<U, AB<T>>>::mk("p_" #OP, #T "," #U, #AB),
#define P2S(AB, OP, T, U) Prom<P<OP>, vec<T, AB>, U>::mk("p_" #OP "_scalar", #T "," #U, #AB),
#define P3(AB, OP, T, U, V) Prom<P<OP>, vec<T, AB>, simd<U, AB<T>>, simd<V, AB<T>>>::mk("p_" #OP, #T "," #U "," #V, #AB),
#define P3S(AB, OP, T, U, V) Prom<P<OP>, vec<T, AB>, simd<U, AB<T>>, V>::mk("p_" #OP "_scalar", #T "," #U "," #V, #AB),
#define X2(AB, OP, T, U) Prom<X<OP>, vec<T, AB>, simd<U, AB<T>>>::mk("p_" #OP, #T "," #U, #AB),
#define X2S(AB, OP, T, U) Prom<X<OP>, vec<T, AB>, U>::mk("p_" #OP "_scalar", #T "," #U, #AB),
#define F1(AB, OP, T) One<OP, vec<T, AB>>::L::mk("A17", #OP, #T, #AB),
#define F2(AB, OP, T, U) Two<OP, vec<T, AB>, simd<U, AB<T>>>::L::mk("A17", #OP, #T "," #U, #AB),
#define F2S(AB, OP, T, U) Two<OP, vec<T, AB>, U>::L::mk("A17", #OP "_scalar", #T "," #U, #AB),
#define E1(X, ...) X(sca, __VA_ARGS__) X(pak, __VA_ARGS__)
#define E8(X, ...) VP_ABIS(X, __VA_ARGS__)
#define E4(X, ...) X(v128, __VA_ARGS__) X(fix, __VA_ARGS__) X(sca, __VA_ARGS__) X(pak, __VA_ARGS__)
#define FD(E, OP) E(F1, OP, float) E(F1, OP, double)
#define IT(E, OP) E(P1, OP, int8_t) E(P1, OP, uint16_t) E(P1, OP, int32_t) E(P1, OP, uint32_t) E(P1, OP, int64_t) E(P1, OP, uint64_t)
#define GEN1(X, E) X(E, exp_) X(E, exp2_) X(E, expm1_) X(E, cbrt_) X(E, sinh_) X(E, cosh_) X(E, tanh_) X(E, asinh_) X(E, acosh_) X(E, atanh_) X(E, erf_) X(E, erfc_) X(E, tgamma_) X(E, lgamma_)
#define KER1(X, E) X(E, sin_) X(E, cos_) X(E, tan_) X(E, asin_) X(E, acos_) X(E, atan_) X(E, log_) X(E, log2_) X(E, log10_) X(E, log1p_)
#define FD2(E, OP) E(F2, OP, float, float) E(F2, OP, double, double)
#define FS2(E, OP) E(F2S, OP, float, float) E(F2S, OP, double, double)
#define GEN2(X, E) X(E, fmod_) X(E, remainder_) X(E, pow_) X(E, atan2_) X(E, remquo_r) X(E, remquo_q) X(E, remquo_er) X(E, remquo_eq)
#define MIX(E, OP) E(P2, OP, float, double) E(P2, OP, double, float) E(P2, OP, int32_t, float) E(P2, OP, double, int64_t) E(P2, OP, uint8_t, int16_t) E(P2, OP, int32_t, int32_t) E(P2, OP, uint64_t, uint64_t)
#define MIXS(E, OP) E(P2S, OP, float, double) E(P2S, OP, double, float) E(P2S, OP, int32_t, float) E(P2S, OP, double, int64_t) E(P2S, OP, uint8_t, int16_t) E(P2S, OP, float, int) E(P2S, OP, int64_t, int64_t)
#define MIX3(E, OP) E(P3, OP, float, double, float) E(P3, OP, int, float, double) E(P3, OP, double, int, uint8_t)
#define MIX3S(E, OP) E(P3S, OP, float, double, float) E(P3S, OP, int, float, double) E(P3S, OP, double, int, uint8_t)
#define IX(E, OP, I) E(X2, OP, int8_t, I) E(X2, OP, uint16_t, I) E(X2, OP, int32_t, I) E(X2, OP, uint64_t, I)
#define IXS(E, OP, I) E(X2S, OP, int8_t, I) E(X2S, OP, uint16_t, I) E(X2S, OP, int32_t, I) E(X2S, OP, uint64_t, I)
#define CLS(X, E) X(E, isnan_) X(E, isinf_) X(E, isfinite_) X(E, isnormal_) X(E, signbit_) X(E, fpclassify_) X(E, logb_) X(E, ilogb_) X(E, sqrt_) X(E, rcp_) X(E, rsqrt_)
#define CMPS(X, E) X(E, isgreater_) X(E, isgreaterequal_) X(E, isless_) X(E, islessequal_) X(E, islessgreater_) X(E, isunordered_)
#if VP_PART == 0
PROBES { GEN1(FD, E8) KER1(FD, E1) FD(E8, sqrt_) FD(E1, sincos_s) FD(E1, sincos_c) FD(E1, rcp_) FD(E1, rsqrt_) E8(F1, rcp_, double) E8(F1, rsqrt_, double) FD(E1, modf_ef) FD(E1, modf_ei) FD(E1, frexp_em) };
#elif VP_PART == 1
PROBES { E8(F2, remquo_wide, float, float) E8(F2, remquo_wide, double, double) GEN2(FD2, E8) FD2(E1, hypot_) FS2(E8, fmod_) FS2(E8, remainder_) FS2(E8, pow_) E1(F2, nexttoward_, float, long double) E1(F2, nexttoward_, double, long double) };
#elif VP_PART == 2
PROBES { GEN1(IT, E4) };
#elif VP_PART == 3
PROBES { KER1(IT, E4) CLS(IT, E4) IT(E4, pfrexp_m) IT(E4, pfrexp_e) IT(E4, pfrexp_em) IT(E4, pfrexp_ee) };
#elif VP_PART == 4
PROBES { GEN2(MIX, E4) MIX(E4, hypot_) MIX(E4, nextafter_) MIX(E4, copysign_) MIX(E4, fdim_) MIX(E4, fmin_) MIX(E4, fmax_) CMPS(MIX, E4) };
#else
PROBES { MIXS(E4, fmod_) MIXS(E4, remainder_) MIXS(E4, pow_) MIXS(E4, copysign_) MIXS(E4, fdim_) MIXS(E4, fmin_) MIXS(E4, fmax_) MIX3(E4, pfma) MIX3(E4, plerp) MIX3S(E4, plerp)
	IX(E4, ldexp_, int) IX(E4, scalbn_, int) IX(E4, scalbln_, long) IXS(E4, ldexp_, int) IXS(E4, scalbn_, int) IXS(E4, scalbln_, long) };
#endif
