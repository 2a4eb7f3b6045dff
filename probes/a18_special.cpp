// A18: special arguments of the vector kernels, in any element, with arbitrary other elements.
#include "probe.hpp"
using namespace vp;
constexpr Probe special(Probe p) { p.flags |= SPECIAL; return p; }
template<class T> using ui = std::conditional_t<sizeof(T) == 4, unsigned, unsigned long>;
template<class T> constexpr T nan_ = std::numeric_limits<T>::quiet_NaN();
template<class T> constexpr T inf_ = std::numeric_limits<T>::infinity();
template<class T> constexpr T max_ = std::numeric_limits<T>::max();
template<class T> constexpr T min_ = std::numeric_limits<T>::min();
template<class T> constexpr T den_ = std::numeric_limits<T>::denorm_min();
template<class T> ui<T> bits(T x) { return std::bit_cast<ui<T>>(x); }
template<class T> ui<T> mag(T x) { return bits(x) & ~bits(T(-0.0)); }
template<class T> bool isnan_(T x) { return mag(x) > mag(inf_<T>); }
template<class T> bool isinf_(T x) { return mag(x) == mag(inf_<T>); }
template<class T> bool snan_(T x) { return isnan_(x) && !(bits(x) & (ui<T>(1) << (sizeof(T) == 4 ? 22 : 51))); }
template<class T> bool neg_(T x) { return bits(x) != mag(x); }
template<class T> T abs_(T x) { return std::bit_cast<T>(mag(x)); }
// the constant in every even element of one call and every odd element of another, arbitrary values elsewhere
template<class T, class V, class F> V mix(F f, const V &x, T c) {
	constexpr unsigned N = V::size(); V r[2]; for (unsigned h = 0; h < 2; ++h) { alignas(V) char t[sizeof(V)]; store<V>(t, x); for (unsigned i = h; i < N; i += 2) reinterpret_cast<T *>(t)[i] = c; r[h] = f(load<V>(t)); }
	alignas(V) char t[sizeof(V)]; store<V>(t, r[0]); alignas(V) char u[sizeof(V)]; store<V>(u, r[1]); for (unsigned i = 1; i < N; i += 2) reinterpret_cast<T *>(t)[i] = reinterpret_cast<T *>(u)[i]; return load<V>(t); }
// symbolic classes: C is the condition on x, E the result
#define SC(N, F, C, E) struct N { template<class V> static V impl(const V &x) { return F; } template<class T> static bool ok(T x) { return C; } template<class T> static T lane(T x) { return E; } };
#define SC2(N, F, C, E) struct N { template<class V> static V impl(const V &x, const V &y) { return F; } template<class T> static bool ok(T x, T y) { return C; } template<class T> static T lane(T x, T y) { return E; } };
// exact results at constants, and results within bounds (1 when in bounds)
#define EX(N, F, C, E) struct N { template<class V> static V impl(const V &v) { using T = typename V::value_type; return mix<T>([](const V &x) -> V { return F; }, v, T(C)); } template<class T> static T lane(T) { return T(E); } };
#define TO(N, F, C, LO, HI) struct N { template<class V> static V impl(const V &v) { using T = typename V::value_type; V r = mix<T>([](const V &x) -> V { return F; }, v, T(C)); alignas(V) char t[sizeof(V)]; store<V>(t, r); for (unsigned i = 0; i < V::size(); ++i) { T &e = reinterpret_cast<T *>(t)[i]; e = e >= T(LO) && e <= T(HI); } return load<V>(t); } template<class T> static T lane(T) { return T(1); } };
#define UL(N, F, C, R) TO(N, F, C, (R) - std::fabs(R) * 4 * std::numeric_limits<T>::epsilon(), (R) + std::fabs(R) * 4 * std::numeric_limits<T>::epsilon())
template<class V> V scs(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return s; }
template<class V> V scc(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return c; }
#define XX(...) __VA_ARGS__
#define TRIGS(F) F(sin_, dpm::sin(x)) F(cos_, dpm::cos(x)) F(tan_, dpm::tan(x)) F(asin_, dpm::asin(x)) F(acos_, dpm::acos(x)) F(atan_, dpm::atan(x)) F(scs_, scs(x)) F(scc_, scc(x))
#define LOGS(F) F(log_, dpm::log(x)) F(log2_, dpm::log2(x)) F(log10_, dpm::log10(x)) F(log1p_, dpm::log1p(x))
#define ROOTS(F) F(sqrt_, dpm::sqrt(x)) F(rcp_, dpm::ext::rcp(x)) F(rsqrt_, dpm::ext::rsqrt(x))
// NaN in, NaN out
#define NANIN(N, F) SC(N##nan, F, isnan_(x), nan_<T>)
TRIGS(NANIN) LOGS(NANIN) ROOTS(NANIN)
// domain errors
#define INFIN(N, F) SC(N##inf, F, isinf_(x), nan_<T>)
INFIN(sin_, dpm::sin(x)) INFIN(cos_, dpm::cos(x)) INFIN(tan_, dpm::tan(x)) INFIN(scs_, scs(x)) INFIN(scc_, scc(x))
SC(asin_dom, dpm::asin(x), mag(x) > mag(T(1)) && !isnan_(x), nan_<T>) SC(acos_dom, dpm::acos(x), mag(x) > mag(T(1)) && !isnan_(x), nan_<T>)
#define NEGIN(N, F) SC(N##neg, F, neg_(x) && mag(x) != 0 && !isnan_(x), nan_<T>)
NEGIN(log_, dpm::log(x)) NEGIN(log2_, dpm::log2(x)) NEGIN(log10_, dpm::log10(x)) NEGIN(sqrt_, dpm::sqrt(x)) NEGIN(rsqrt_, dpm::ext::rsqrt(x))
SC(log1p_dom, dpm::log1p(x), neg_(x) && mag(x) > mag(T(1)) && !isnan_(x), nan_<T>)
// zeroes keep their sign
#define ZERO(N, F) SC(N##zero, F, mag(x) == 0, x)
ZERO(sin_, dpm::sin(x)) ZERO(tan_, dpm::tan(x)) ZERO(asin_, dpm::asin(x)) ZERO(atan_, dpm::atan(x)) ZERO(scs_, scs(x)) ZERO(log1p_, dpm::log1p(x)) ZERO(sqrt_, dpm::sqrt(x))
SC(cos_zero, dpm::cos(x), mag(x) == 0, T(1)) SC(scc_zero, scc(x), mag(x) == 0, T(1))
SC(rcp_zero, dpm::ext::rcp(x), mag(x) == 0, std::bit_cast<T>(bits(x) | bits(inf_<T>))) SC(rcp_inf, dpm::ext::rcp(x), isinf_(x), std::bit_cast<T>(bits(x) & bits(T(-0.0)))) SC(rsqrt_zero, dpm::ext::rsqrt(x), mag(x) == 0, std::bit_cast<T>(bits(x) | bits(inf_<T>)))
// poles, infinities and exact values
#define POLE(N, F) SC(N##pole, F, mag(x) == 0, -inf_<T>) EX(N##one, F, 1, 0) EX(N##inf, F, inf_<T>, inf_<T>)
POLE(log_, dpm::log(x)) POLE(log2_, dpm::log2(x)) POLE(log10_, dpm::log10(x))
EX(log1p_pole, dpm::log1p(x), -1, -inf_<T>) EX(log1p_inf, dpm::log1p(x), inf_<T>, inf_<T>) EX(sqrt_inf, dpm::sqrt(x), inf_<T>, inf_<T>) EX(rsqrt_inf, dpm::ext::rsqrt(x), inf_<T>, 0)
EX(acos_one, dpm::acos(x), 1, 0) UL(acos_mone, dpm::acos(x), -1, 3.14159265358979323846) UL(acos_0, dpm::acos(x), 0, 1.57079632679489661923) UL(acos_half, dpm::acos(x), 0.5, 1.04719755119659774615) UL(acos_mhalf, dpm::acos(x), -0.5, 2.09439510239319549231)
UL(asin_one, dpm::asin(x), 1, 1.57079632679489661923) UL(asin_mone, dpm::asin(x), -1, -1.57079632679489661923) UL(asin_half, dpm::asin(x), 0.5, 0.523598775598298873077)
UL(atan_inf, dpm::atan(x), inf_<T>, 1.57079632679489661923) UL(atan_minf, dpm::atan(x), -inf_<T>, -1.57079632679489661923) UL(atan_max, dpm::atan(x), max_<T>, 1.57079632679489661923) UL(atan_one, dpm::atan(x), 1, 0.785398163397448309616)
#define POW2(N, F, K) EX(N##_den, F, den_<T>, sizeof(T) == 4 ? -149 : -1074) EX(N##_min, F, min_<T>, sizeof(T) == 4 ? -126 : -1022) UL(N##_2, F, 2, 1) UL(N##_half, F, 0.5, -1) EX(N##_hi, F, (sizeof(T) == 4 ? 0x1p127 : 0x1p1023), sizeof(T) == 4 ? 127 : 1023)
POW2(log2, dpm::log2(x), 1)
UL(log_den, dpm::log(x), den_<T>, (sizeof(T) == 4 ? -103.278929903431851103 : -744.440071921381262314)) UL(log_min, dpm::log(x), min_<T>, (sizeof(T) == 4 ? -87.3365447505531 : -708.396418532264106224)) UL(log_max, dpm::log(x), max_<T>, (sizeof(T) == 4 ? 88.7228390620614 : 709.782712893383973096)) UL(log_2, dpm::log(x), 2, 0.693147180559945309417) UL(log_10, dpm::log(x), 10, 2.30258509299404568402)
UL(log10_den, dpm::log10(x), den_<T>, (sizeof(T) == 4 ? -44.8534693539332 : -323.306215343115803390)) UL(log10_min, dpm::log10(x), min_<T>, (sizeof(T) == 4 ? -37.9297794537 : -307.652655568588784)) UL(log10_max, dpm::log10(x), max_<T>, (sizeof(T) == 4 ? 38.5318394498 : 308.254715559916743851)) UL(log10_10, dpm::log10(x), 10, 1) UL(log10_100, dpm::log10(x), 100, 2) UL(log10_m, dpm::log10(x), 0.1, -1)
UL(log1p_max, dpm::log1p(x), max_<T>, (sizeof(T) == 4 ? 88.7228390620614 : 709.782712893383973096)) UL(log1p_1, dpm::log1p(x), 1, 0.693147180559945309417) UL(log1p_mhalf, dpm::log1p(x), -0.5, -0.693147180559945309417)
// tiny arguments: f(x) == x to the last bit
#define TINY(N, F) EX(N##den, F, den_<T>, den_<T>) EX(N##mden, F, -den_<T>, -den_<T>) EX(N##tmin, F, min_<T>, min_<T>)
TINY(sin_, dpm::sin(x)) TINY(tan_, dpm::tan(x)) TINY(asin_, dpm::asin(x)) TINY(atan_, dpm::atan(x)) TINY(log1p_, dpm::log1p(x)) TINY(scs_, scs(x)) EX(cos_den, dpm::cos(x), den_<T>, 1) EX(cos_tmin, dpm::cos(x), -min_<T>, 1) EX(scc_den, scc(x), den_<T>, 1)
// large arguments stay in [-1, 1]
#define BIGA(F, N, A, X) TO(N##A, F, X, -1.000001, 1.000001)
#define BIG(N, F) BIGA(F, N, big0, (sizeof(T) == 4 ? 0x1p21 : 0x1p40)) BIGA(F, N, big1, (sizeof(T) == 4 ? 0x1.8p30 : 0x1.8p50)) BIGA(F, N, big2, (sizeof(T) == 4 ? -0x1.9p30 : -0x1p51))
BIG(sin_, dpm::sin(x)) BIG(cos_, dpm::cos(x)) BIG(scs_, scs(x)) BIG(scc_, scc(x))
// roots of the quadrants
UL(sin_1, dpm::sin(x), 1, 0.841470984807896506653) UL(cos_1, dpm::cos(x), 1, 0.540302305868139717401) UL(tan_1, dpm::tan(x), 1, 1.55740772465490223051) UL(sin_2, dpm::sin(x), 2, 0.909297426825681695396) UL(cos_2, dpm::cos(x), 2, -0.416146836547142386998) UL(tan_2, dpm::tan(x), 2, -2.18503986326151899164)
UL(sin_4, dpm::sin(x), 4, -0.756802495307928251373) UL(cos_4, dpm::cos(x), 4, -0.653643620863611914639) UL(tan_4, dpm::tan(x), 4, 1.15782128234957758314) UL(sin_5, dpm::sin(x), 5.5, -0.705540325570391906232) UL(cos_5, dpm::cos(x), 5.5, 0.708669774291260000027) UL(tan_5, dpm::tan(x), 5.5, -0.995584052213885017701)
UL(scs_4, scs(x), 4, -0.756802495307928251373) UL(scc_4, scc(x), 4, -0.653643620863611914639) UL(scs_m2, scs(x), -2, -0.909297426825681695396) UL(scc_m2, scc(x), -2, -0.416146836547142386998)
// hypot
SC2(hyp_inf, dpm::hypot(x, y), isinf_(x) && !snan_(y), inf_<T>) SC2(hyp_infr, dpm::hypot(x, y), isinf_(y) && !snan_(x), inf_<T>) SC2(hyp_nan, dpm::hypot(x, y), isnan_(x) && !isinf_(y), nan_<T>) SC2(hyp_nanr, dpm::hypot(x, y), isnan_(y) && !isinf_(x), nan_<T>)
SC2(hyp_00, dpm::hypot(x, y), mag(x) == 0 && mag(y) == 0, T(0))
template<class V, class T> V hyp0(const V &x, T c) { return dpm::hypot(x, V(c)); }
template<class V, class T> V h0hyp(const V &x, T c) { return dpm::hypot(V(c), x); }
#define HX(N, C) EX(N##_a, hyp0(x, T(0)), C, (C) < 0 ? -(C) : (C)) EX(N##_b, hyp0(x, T(-0.0)), C, (C) < 0 ? -(C) : (C)) EX(N##_c, h0hyp(x, T(0)), C, (C) < 0 ? -(C) : (C))
HX(hyp_den, den_<T>) HX(hyp_min, -min_<T>) HX(hyp_max, max_<T>) HX(hyp_one, -1)
EX(hyp_34, hyp0(x, T(4)), 3, 5) EX(hyp_max2, hyp0(x, max_<T>), max_<T>, inf_<T>) TO(hyp_big, hyp0(x, max_<T> / 2), max_<T> / 2, max_<T> / 2 * T(1.41421), max_<T> / 2 * T(1.41422)) TO(hyp_small, hyp0(x, min_<T>), min_<T>, min_<T> * T(1.41421), min_<T> * T(1.41422)) EX(hyp_max3, hyp0(x, den_<T>), max_<T>, max_<T>)
EX(hyp_den34, hyp0(x, 4 * den_<T>), 3 * den_<T>, 5 * den_<T>) EX(hyp_sub34, hyp0(x, 4000 * den_<T>), -3000 * den_<T>, 5000 * den_<T>) EX(hyp_sub8, hyp0(x, 8 * den_<T>), 0x1p20 * den_<T>, 0x1p20 * den_<T>)
#define AB18(X, ...) X(v128, __VA_ARGS__) X(v256, __VA_ARGS__)
#define S_VV(AB, OP, T) special(Lane<OP, vec<T, AB>, vec<T, AB>>::mk("A18", #OP, #T, #AB)),
#define S_VVV(AB, OP, T) special(Lane<OP, vec<T, AB>, vec<T, AB>, vec<T, AB>>::mk("A18", #OP, #T, #AB)),
#define F1(OP) AB18(S_VV, OP, float) AB18(S_VV, OP, double)
#define F2(OP) AB18(S_VVV, OP, float) AB18(S_VVV, OP, double)
#define FT(N) F1(N##den) F1(N##mden) F1(N##tmin)
#define FB(N) F1(N##big0) F1(N##big1) F1(N##big2)
#if VP_PART == 0
PROBES { F1(sin_nan) F1(sin_inf) F1(sin_zero) FT(sin_) FB(sin_) F1(sin_1) F1(sin_2) F1(sin_4) F1(sin_5) };
#elif VP_PART == 1
PROBES { F1(cos_nan) F1(cos_inf) F1(cos_zero) F1(cos_den) F1(cos_tmin) FB(cos_) F1(cos_1) F1(cos_2) F1(cos_4) F1(cos_5) };
#elif VP_PART == 2
PROBES { F1(tan_nan) F1(tan_inf) F1(tan_zero) FT(tan_) F1(tan_1) F1(tan_2) F1(tan_4) F1(tan_5) };
#elif VP_PART == 3
PROBES { F1(scs_nan) F1(scs_inf) F1(scs_zero) FT(scs_) FB(scs_) F1(scs_4) F1(scs_m2) F1(scc_nan) F1(scc_inf) F1(scc_zero) F1(scc_den) FB(scc_) F1(scc_4) F1(scc_m2) };
#elif VP_PART == 4
PROBES { F1(asin_nan) F1(asin_dom) F1(asin_zero) FT(asin_) F1(asin_one) F1(asin_mone) F1(asin_half) };
#elif VP_PART == 5
PROBES { F1(acos_nan) F1(acos_dom) F1(acos_one) F1(acos_mone) F1(acos_0) F1(acos_half) F1(acos_mhalf) F1(atan_nan) F1(atan_zero) FT(atan_) F1(atan_inf) F1(atan_minf) F1(atan_max) F1(atan_one) };
#elif VP_PART == 6
PROBES { F1(log_nan) F1(log_neg) F1(log_pole) F1(log_one) F1(log_inf) F1(log_den) F1(log_min) F1(log_max) F1(log_2) F1(log_10) };
#elif VP_PART == 7
PROBES { F1(log2_nan) F1(log2_neg) F1(log2_pole) F1(log2_one) F1(log2_inf) F1(log2_den) F1(log2_min) F1(log2_2) F1(log2_half) F1(log2_hi) };
#elif VP_PART == 8
PROBES { F1(log10_nan) F1(log10_neg) F1(log10_pole) F1(log10_one) F1(log10_inf) F1(log10_den) F1(log10_min) F1(log10_max) F1(log10_10) F1(log10_100) F1(log10_m) };
#elif VP_PART == 9
PROBES { F1(log1p_nan) F1(log1p_dom) F1(log1p_zero) F1(log1p_pole) F1(log1p_inf) F1(log1p_max) F1(log1p_1) F1(log1p_mhalf) FT(log1p_) };
#elif VP_PART == 10
#define FD(OP) AB18(S_VV, OP, double)
PROBES { F1(sqrt_nan) F1(sqrt_neg) F1(sqrt_zero) F1(sqrt_inf) F1(rcp_nan) FD(rcp_zero) FD(rcp_inf) F1(rsqrt_nan) FD(rsqrt_zero) FD(rsqrt_inf) FD(rsqrt_neg) };
#else
#define FH(N) F1(N##_a) F1(N##_b) F1(N##_c)
PROBES { F2(hyp_inf) F2(hyp_infr) F2(hyp_nan) F2(hyp_nanr) F2(hyp_00) FH(hyp_den) FH(hyp_min) FH(hyp_max) FH(hyp_one) F1(hyp_34) F1(hyp_max2) F1(hyp_big) F1(hyp_small) F1(hyp_max3) F1(hyp_den34) F1(hyp_sub34) F1(hyp_sub8) };
#endif
