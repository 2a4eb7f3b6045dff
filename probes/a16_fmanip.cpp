// A16: frexp, ldexp, scalbn, scalbln, modf, ilogb, logb, nextafter.
#include "probe.hpp"
using namespace vp;
template<class T> static inline bool fin(T x) { return x - x == 0; }
struct frexp_m { template<class V> static V impl(const V &x) { simd<int, typename V::abi_type> e; return dpm::frexp(x, &e); } template<class T> static T lane(T x) { int e; return std::frexp(x, &e); } };
struct frexp_e { template<class V> static auto impl(const V &x) { simd<int, typename V::abi_type> e; (void)dpm::frexp(x, &e); return e; } template<class T> static int lane(T x) { int e; (void)std::frexp(x, &e); return e; } template<class T> static bool ok(T x) { return fin(x); /* unspecified otherwise */ } };
struct modf_f { template<class V> static V impl(const V &x) { V i; return dpm::modf(x, &i); } template<class T> static T lane(T x) { T i; return std::modf(x, &i); } };
struct modf_i { template<class V> static V impl(const V &x) { V i; (void)dpm::modf(x, &i); return i; } template<class T> static T lane(T x) { T i; (void)std::modf(x, &i); return i; } };
struct ilogb_ { template<class V> static auto impl(const V &x) { return dpm::ilogb(x); } template<class T> static int lane(T x) { return std::ilogb(x); } };
struct logb_ { template<class V> static auto impl(const V &x) { return dpm::logb(x); } template<class T> static T lane(T x) { return std::logb(x); } };
struct nextafter_ { template<class V> static auto impl(const V &x, const V &y) { return dpm::nextafter(x, y); } template<class T> static T lane(T x, T y) { return std::nextafter(x, y); } };
struct ldexp_ { template<class V, class W> static auto impl(const V &x, const W &y) { return dpm::ldexp(x, y); } template<class T> static T lane(T x, int y) { return std::ldexp(x, y); } };
struct scalbn_ { template<class V, class W> static auto impl(const V &x, const W &y) { return dpm::scalbn(x, y); } template<class T> static T lane(T x, int y) { return std::scalbn(x, y); } };
struct scalbln_ { template<class V, class W> static auto impl(const V &x, const W &y) { return dpm::scalbln(x, y); } template<class T> static T lane(T x, long y) { return std::scalbln(x, y); } };
constexpr Probe exact(Probe p) { p.flags |= EXACT; return p; }
#define P_E(AB, PR, OP, T) exact(Lane<OP, std::remove_cvref_t<decltype(OP::impl(std::declval<vec<T, AB>>()))>, vec<T, AB>>::mk(PR, #OP, #T, #AB)),
#define P_EE(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB)),
#define P_EI(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>, simd<int, AB<T>>>::mk(PR, #OP, #T, #AB)),
#define P_EL(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>, simd<long, AB<T>>>::mk(PR, #OP, #T, #AB)),
// scalar exponents: the whole domain with equal elements, and distinct elements with a few exponents
constexpr Probe splat(Probe p) { p.flags |= SPLAT; return exact(p); }
template<class I> static inline I few(I n) { return (n & 3) - 2; }
struct ldexp_few { template<class V> static auto impl(const V &x, int y) { return dpm::ldexp(x, few(y)); } template<class T> static T lane(T x, int y) { return std::ldexp(x, few(y)); } };
struct scalbn_few { template<class V> static auto impl(const V &x, int y) { return dpm::scalbn(x, few(y)); } template<class T> static T lane(T x, int y) { return std::scalbn(x, few(y)); } };
struct scalbln_few { template<class V> static auto impl(const V &x, long y) { return dpm::scalbln(x, few(y)); } template<class T> static T lane(T x, long y) { return std::scalbln(x, few(y)); } };
#define P_ES(AB, PR, OP, T) splat(Lane<OP, vec<T, AB>, vec<T, AB>, int>::mk(PR, #OP "_scalar", #T, #AB)),
#define P_EM(AB, PR, OP, T) splat(Lane<OP, vec<T, AB>, vec<T, AB>, long>::mk(PR, #OP "_scalar", #T, #AB)),
#define P_FS(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>, int>::mk(PR, #OP, #T, #AB)),
#define P_FM(AB, PR, OP, T) exact(Lane<OP, vec<T, AB>, vec<T, AB>, long>::mk(PR, #OP, #T, #AB)),
#if VP_PART == 0
PROBES { FLTS(P_E, "A16", frexp_m) FLTS(P_E, "A16", frexp_e) FLTS(P_E, "A16", modf_f) FLTS(P_E, "A16", modf_i) };
#elif VP_PART == 1
PROBES { FLTS(P_E, "A16", ilogb_) FLTS(P_E, "A16", logb_) FLTS(P_EE, "A16", nextafter_) };
#elif VP_PART == 2
PROBES { FLTS(P_ES, "A16", ldexp_) FLTS(P_ES, "A16", scalbn_) FLTS(P_EM, "A16", scalbln_) FLTS(P_FS, "A16", ldexp_few) FLTS(P_FS, "A16", scalbn_few) FLTS(P_FM, "A16", scalbln_few) };
#else
PROBES { FLTS(P_EI, "A16", ldexp_) FLTS(P_EI, "A16", scalbn_) FLTS(P_EL, "A16", scalbln_) };
#endif
