// A25: every element of a vector kernel's result is within a bounded distance of the mathematical function.  All elements
// hold the same argument (A19 shows that the neighbours do not matter); the bounds are in engine/vg.cpp (accSpecs).
#include "probe.hpp"
using namespace vp;
template<class Op, class V> struct AccP {
	static void I(void *o, void *a, void *, void *, void *, void *) { store<V>(o, Op::impl(load<V>(a))); }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A25", op, t, abi, &I, nullptr, 2, SPLAT | NOREF | ACC, {Meta<V>::out, Meta<V>::in}}; }
};
#define F1(N, E) struct N##_ { template<class V> static V impl(const V &x) { return E; } };
F1(sin, dpm::sin(x)) F1(cos, dpm::cos(x)) F1(tan, dpm::tan(x)) F1(asin, dpm::asin(x)) F1(acos, dpm::acos(x)) F1(atan, dpm::atan(x))
F1(log, dpm::log(x)) F1(log2, dpm::log2(x)) F1(log10, dpm::log10(x)) F1(log1p, dpm::log1p(x)) F1(sqrt, dpm::sqrt(x))
F1(hypot1, dpm::hypot(x, V(1))) F1(hypot3, dpm::hypot(V(3), x))
struct sincos_sin_ { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return s; } };
struct sincos_cos_ { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return c; } };
#define P1(AB, N, T) AccP<N##_, vec<T, AB>>::mk(#N, #T, #AB),
#define PT(N) P1(v128, N, float) P1(v256, N, float) P1(v128, N, double) P1(v256, N, double)
#define PF(N) P1(v128, N, float) P1(v256, N, float)
#if VP_PART == 0
PROBES { PT(sin) PT(cos) };
#elif VP_PART == 1
PROBES { PT(tan) PT(sincos_sin) PT(sincos_cos) };
#elif VP_PART == 2
PROBES { PT(asin) PT(acos) PT(atan) };
#elif VP_PART == 3
PROBES { PT(log) PT(log2) };
#elif VP_PART == 4
#if defined(__AVX__) && !defined(__AVX2__) // log10(double) on split 256-bit integer vectors: the analysis loses the argument's bits, see DESIGN.md
PROBES { P1(v128, log10, float) P1(v256, log10, float) P1(v128, log10, double) PT(log1p) };
#else
PROBES { PT(log10) PT(log1p) };
#endif
#else
PROBES { PT(sqrt) PF(hypot1) PF(hypot3) };
#endif
