// A26: exact symmetries of the vector kernels, for every argument: f(-x) = -f(x), f(-x) = f(x), hypot(x, y) = hypot(y, x) = hypot(-x, y), sincos(x) = (sin(x), cos(x)).
#include "probe.hpp"
using namespace vp;
template<class V> V neg(const V &x) { using T = typename V::value_type; alignas(V) char t[sizeof(V)]; store<V>(t, x); for (unsigned i = 0; i < V::size(); ++i) { T &e = reinterpret_cast<T *>(t)[i]; e = -e; } return load<V>(t); }
// NaN arguments are A18's
template<class T> bool num(T x, T y) { return x == x && y == y; }
template<class T> using V1 = vec<T, v128>;
#define ODD(N) struct N##_odd { template<class V> static V impl(const V &x) { return dpm::N(neg(x)); } template<class T> static T lane(T x) { return -dpm::N(V1<T>(x))[0]; } };
#define EVEN(N) struct N##_even { template<class V> static V impl(const V &x) { return dpm::N(neg(x)); } template<class T> static T lane(T x) { return dpm::N(V1<T>(x))[0]; } };
ODD(sin) ODD(tan) ODD(asin) ODD(atan) EVEN(cos)
struct rcp_odd { template<class V> static V impl(const V &x) { return dpm::ext::rcp(neg(x)); } template<class T> static T lane(T x) { return -dpm::ext::rcp(V1<T>(x))[0]; } };
// every number: a NaN operand is replaced by 1 on both sides
template<class T> T clean(T x) { return x == x ? x : T(1); }
template<class V> V cleanv(const V &x) { using T = typename V::value_type; alignas(V) char t[sizeof(V)]; store<V>(t, x); for (unsigned i = 0; i < V::size(); ++i) { T &e = reinterpret_cast<T *>(t)[i]; e = clean(e); } return load<V>(t); }
struct hypot_sym { template<class V> static V impl(const V &x, const V &y) { return dpm::hypot(cleanv(y), cleanv(x)); } template<class T> static T lane(T x, T y) { return dpm::hypot(V1<T>(clean(x)), V1<T>(clean(y)))[0]; } };
struct hypot_even { template<class T> static bool ok(T x, T y) { return num(x, y); } template<class V> static V impl(const V &x, const V &y) { return dpm::hypot(neg(x), y); } template<class T> static T lane(T x, T y) { return dpm::hypot(V1<T>(x), V1<T>(y))[0]; } };
struct hypot_even2 { template<class T> static bool ok(T x, T y) { return num(x, y); } template<class V> static V impl(const V &x, const V &y) { return dpm::hypot(x, neg(y)); } template<class T> static T lane(T x, T y) { return dpm::hypot(V1<T>(x), V1<T>(y))[0]; } };
struct sincos_sin { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return s; } template<class T> static T lane(T x) { return dpm::sin(V1<T>(x))[0]; } };
struct sincos_cos { template<class V> static V impl(const V &x) { V s, c; dpm::ext::sincos(x, s, c); return c; } template<class T> static T lane(T x) { return dpm::cos(V1<T>(x))[0]; } };
#define AB26(X, ...) X(v128, __VA_ARGS__) X(v256, __VA_ARGS__)
#define T1(T, OP) AB26(P_VV, "A26", OP, T)
#define T2(T, OP) AB26(P_VVV, "A26", OP, T)
#define F1(OP) T1(float, OP) T1(double, OP)
#define F2(OP) T2(float, OP) T2(double, OP)
#if VP_PART == 0
PROBES { F1(sin_odd) F1(cos_even) F1(tan_odd) F1(rcp_odd) };
#elif VP_PART == 1
PROBES { F1(asin_odd) F1(atan_odd) F1(sincos_sin) F1(sincos_cos) };
#else
PROBES { F2(hypot_sym) F2(hypot_even) F2(hypot_even2) };
#endif
