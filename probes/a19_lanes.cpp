// A19: the vector kernels give, in every element, position and ABI, the same function of that element alone:
// the reference is element 0 of the 128-bit call whose elements all hold the value.
#include "probe.hpp"
using namespace vp;
struct r1 { template<class F, class T> static T go(F f, T x) { return f(vec<T, v128>(x))[0]; } template<class F, class T> static T go(F f, T x, T y) { return f(vec<T, v128>(x), vec<T, v128>(y))[0]; } };
#define K1(N, E) struct N##_ { static constexpr auto f = [](const auto &x) { return E; }; template<class V> static V impl(const V &x) { return f(x); } template<class T> static T lane(T x) { return r1::go(f, x); } };
#define K2(N, E) struct N##_ { static constexpr auto f = [](const auto &x, const auto &y) { return E; }; template<class V, class W> static V impl(const V &x, const W &y) { return f(x, y); } template<class T> static T lane(T x, T y) { return r1::go(f, x, y); } };
#define KF(N) K1(N, dpm::N(x))
KF(sin) KF(cos) KF(tan) KF(asin) KF(acos) KF(atan) KF(log) KF(log2) KF(log10) KF(log1p) KF(sqrt)
K1(rcp, dpm::ext::rcp(x)) K1(rsqrt, dpm::ext::rsqrt(x)) K2(hypot, dpm::hypot(x, y))
struct sincos_s { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return s; } template<class T> static T lane(T x) { vec<T, v128> s, c; dpm::ext::sincos(vec<T, v128>(x), s, c); return s[0]; } };
struct sincos_c { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return c; } template<class T> static T lane(T x) { vec<T, v128> s, c; dpm::ext::sincos(vec<T, v128>(x), s, c); return c[0]; } };
#define AB19(X, ...) X(v128, __VA_ARGS__) X(v256, __VA_ARGS__) X(fix, __VA_ARGS__) X(sml, __VA_ARGS__) X(wid, __VA_ARGS__) X(odd, __VA_ARGS__)
#define T1(T, OP) AB19(P_VV, "A19", OP, T)
#define T2(T, OP) AB19(P_VVV, "A19", OP, T)
#define F1(OP) T1(float, OP) T1(double, OP)
#if VP_PART == 0
PROBES { F1(sin_) F1(cos_) };
#elif VP_PART == 1
PROBES { F1(tan_) F1(sincos_s) F1(sincos_c) };
#elif VP_PART == 2
PROBES { F1(asin_) F1(acos_) F1(atan_) };
#elif VP_PART == 3
PROBES { F1(log_) F1(log2_) };
#elif VP_PART == 4
PROBES { F1(log10_) F1(log1p_) };
#else
PROBES { F1(sqrt_) F1(rcp_) F1(rsqrt_) T2(float, hypot_) T2(double, hypot_) };
#endif
