// A14: abs, fabs, copysign, fmin, fmax, fdim, fma and the ext:: multiply-add family.
#include "probe.hpp"
#include <bit>
using namespace vp;
template<class T> using ub = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
template<class T> constexpr ub<T> sgn = ub<T>{1} << (sizeof(T) * 8 - 1);
template<class T> static inline T ofb(ub<T> x) { return std::bit_cast<T>(x); }
template<class T> static inline ub<T> bof(T x) { return std::bit_cast<ub<T>>(x); }
template<class T> static inline T fdim1(T a, T b) { return a <= b ? T{0} : a - b; }
template<class T> static inline T fmin1(T a, T b) { return a != a ? b : b != b ? a : b < a ? b : a; }
template<class T> static inline T fmax1(T a, T b) { return a != a ? b : b != b ? a : a < b ? b : a; }
template<class T> static inline T csgn(T a, T b) { return ofb<T>((bof(a) & ~sgn<T>) | (bof(b) & sgn<T>)); }
struct absf { template<class V> static V impl(const V &x) { return dpm::abs(x); } template<class T> static T lane(T x) { return ofb<T>(bof(x) & ~sgn<T>); } };
struct fabsf_ { template<class V> static V impl(const V &x) { return dpm::fabs(x); } template<class T> static T lane(T x) { return ofb<T>(bof(x) & ~sgn<T>); } };
struct absi { template<class V> static V impl(const V &x) { return dpm::abs(x); } template<class T> static T lane(T x) { return x < 0 ? static_cast<T>(0 - x) : x; } };
struct copysign_ { template<class V, class W> static V impl(const V &x, const W &s) { return dpm::copysign(x, s); } template<class T> static T lane(T x, T s) { return csgn(x, s); } };
struct fmin_ { template<class V, class W> static V impl(const V &a, const W &b) { return dpm::fmin(a, b); } template<class T> static T lane(T a, T b) { return fmin1(a, b); } };
struct fmax_ { template<class V, class W> static V impl(const V &a, const W &b) { return dpm::fmax(a, b); } template<class T> static T lane(T a, T b) { return fmax1(a, b); } };
struct fdim_ { template<class V, class W> static V impl(const V &a, const W &b) { return dpm::fdim(a, b); } template<class T> static T lane(T a, T b) { return fdim1(a, b); } };
// fused where the instruction set has it and the ABI is native, two roundings otherwise: either is allowed; the constant-evaluated
// branch is the element definition (two roundings, std::lerp)
#ifdef VP_CONSTEVAL
constexpr bool vp_fused = false;
#else
constexpr bool vp_fused = true;
#endif
#ifdef DPM_HAS_FMA
template<class T> static inline T mad(T a, T b, T c) { if constexpr (sizeof(T) == 4) return __builtin_fmaf(a, b, c); else return __builtin_fma(a, b, c); }
#else
template<class T> static inline T mad(T a, T b, T c) { return a * b + c; }
#endif
template<class T> static inline T mad2(T a, T b, T c) { return a * b + c; }
#define MAD(N, CALL, A1, C1) template<bool F> struct N { template<class V> static V impl(const V &a, const V &b, const V &c) { return CALL(a, b, c); } template<class T> static T lane(T a, T b, T c) { return F ? mad<T>(A1, b, C1) : mad2<T>(A1, b, C1); } };
MAD(fma_, dpm::fma, a, c) MAD(fmadd_, dpm::ext::fmadd, a, c) MAD(fmsub_, dpm::ext::fmsub, a, -c) MAD(fnmadd_, dpm::ext::fnmadd, -a, c) MAD(fnmsub_, dpm::ext::fnmsub, -a, -c)
template<bool F> struct lerp_ { template<class V, class W> static V impl(const V &a, const V &b, const W &c) { return dpm::lerp(a, b, c); } template<class T> static T lane(T a, T b, T c) { if constexpr (F) return mad<T>(b - a, c, a); else return std::lerp(a, b, c); } };
#define P_LS(AB, OP, T, F) Lane<OP<F>, vec<T, AB>, vec<T, AB>, vec<T, AB>, T>::mk("A14", "lerp_scalar", #T, #AB),
constexpr Probe negsym(Probe p, bool y) { if (y) { p.flags |= 8; p.args[0].mode = FPZ; } return p; }
#define P_V3(AB, OP, T, F) negsym(Lane<OP<F>, vec<T, AB>, vec<T, AB>, vec<T, AB>, vec<T, AB>>::mk("A14", #OP, #T, #AB), #OP[2] == 'm' && #OP[3] == 's'),
#define MADS(OP, T) P_V3(v128, OP, T, vp_fused) P_V3(v256, OP, T, vp_fused) P_V3(fix, OP, T, vp_fused) P_V3(sml, OP, T, vp_fused) P_V3(wid, OP, T, vp_fused) P_V3(odd, OP, T, vp_fused) P_V3(sca, OP, T, false) P_V3(pak, OP, T, false)
#define MZ(AB, OP, T, ...) Lane<OP, vec<T, AB>, vec<T, AB>, __VA_ARGS__>::mk("A14", #OP, #T, #AB, FPZ),
#define P_ZV(AB, PR, OP, T) MZ(AB, OP, T, vec<T, AB>)
#define P_ZS(AB, PR, OP, T) MZ(AB, OP, T, T)
#if VP_PART == 0
PROBES { FLTS(P_VV, "A14", absf) FLTS(P_VV, "A14", fabsf_) SINTS(P_VV, "A14", absi) FLTS(P_VVV, "A14", copysign_) FLTS(P_VVS, "A14", copysign_) };
#elif VP_PART == 1
PROBES { FLTS(P_ZV, "A14", fmin_) FLTS(P_ZV, "A14", fmax_) FLTS(P_ZS, "A14", fmin_) FLTS(P_ZS, "A14", fmax_) FLTS(P_VVV, "A14", fdim_) FLTS(P_VVS, "A14", fdim_) };
#else
#define LS(OP, T) P_LS(v128, OP, T, vp_fused) P_LS(v256, OP, T, vp_fused) P_LS(fix, OP, T, vp_fused) P_LS(sml, OP, T, vp_fused) P_LS(wid, OP, T, vp_fused) P_LS(odd, OP, T, vp_fused) P_LS(sca, OP, T, false) P_LS(pak, OP, T, false)
#define FL(T, ...) MADS(lerp_, T) LS(lerp_, T) MADS(fma_, T) MADS(fmadd_, T) MADS(fmsub_, T) MADS(fnmadd_, T) MADS(fnmsub_, T)
PROBES { VP_FLTS(FL) };
#endif
