// A03: shifts.  Counts are in range: 0 <= n < number of bits of the element type.
#include "probe.hpp"
namespace vp {
template<class T, class N> static bool cnt_ok(N n) { return n >= 0 && static_cast<unsigned long long>(n) < sizeof(T) * 8; }
template<class T> using U = std::make_unsigned_t<T>;
struct shl { template<class V, class W> static V impl(const V &a, const W &b) { return a << b; } template<class T> static T lane(T a, T b) { return static_cast<T>(U<T>(a) << b); } template<class T> static bool ok(T a, T b) { return cnt_ok<T>(b); } };
struct shr { template<class V, class W> static V impl(const V &a, const W &b) { return a >> b; } template<class T> static T lane(T a, T b) { return static_cast<T>(a >> b); } template<class T> static bool ok(T a, T b) { return cnt_ok<T>(b); } };
struct shl_eq { template<class V, class W> static V impl(V a, const W &b) { auto &r = (a <<= b); return &r == &a ? a : V{}; } template<class T> static T lane(T a, T b) { return static_cast<T>(U<T>(a) << b); } template<class T> static bool ok(T a, T b) { return cnt_ok<T>(b); } };
struct shr_eq { template<class V, class W> static V impl(V a, const W &b) { auto &r = (a >>= b); return &r == &a ? a : V{}; } template<class T> static T lane(T a, T b) { return static_cast<T>(a >> b); } template<class T> static bool ok(T a, T b) { return cnt_ok<T>(b); } };
#define CSH(NAME, FN, N, E) struct NAME { template<class V> static V impl(const V &a) { return FN<N>(a); } template<class T> static T lane(T a) { return static_cast<T>(E); } };
// compile-time counts: small, middle, largest per width
#define CSHN(N) CSH(lsl##N, lsl, N, U<T>(a) << N) CSH(lsr##N, lsr, N, U<T>(a) >> N) CSH(asl##N, asl, N, U<T>(a) << N) CSH(asr##N, asr, N, a >> N)
CSHN(0) CSHN(1) CSHN(3) CSHN(6) CSHN(7) CSHN(8) CSHN(14) CSHN(15) CSHN(16) CSHN(30) CSHN(31) CSHN(32) CSHN(33) CSHN(47) CSHN(62) CSHN(63)
#define ONE(TT, OP) VP_ABIS(P_VV, "A03", OP, TT)
#define B4(TT, N) ONE(TT, lsl##N) ONE(TT, lsr##N) ONE(TT, asl##N) ONE(TT, asr##N)
#define B2(TT, N) ONE(TT, lsl##N) ONE(TT, lsr##N)
PROBES {
#if VP_PART == 0
INTS(P_VVV, "A03", shl) INTS(P_VVV, "A03", shr) INTS(P_VVV, "A03", shl_eq) INTS(P_VVV, "A03", shr_eq)
#elif VP_PART == 1
INTS(P_VVS, "A03", shl) INTS(P_VVS, "A03", shr) INTS(P_VVS, "A03", shl_eq) INTS(P_VVS, "A03", shr_eq)
#elif VP_PART == 2
B4(int8_t, 0) B4(int8_t, 1) B4(int8_t, 3) B4(int8_t, 6) B4(int16_t, 1) B4(int16_t, 8) B4(int16_t, 14)
#elif VP_PART == 3
B4(int32_t, 0) B4(int32_t, 1) B4(int32_t, 15) B4(int32_t, 16) B4(int32_t, 30) B4(int64_t, 0) B4(int64_t, 1) B4(int64_t, 31)
#elif VP_PART == 4
B4(int64_t, 32) B4(int64_t, 33) B4(int64_t, 47) B4(int64_t, 62)
#elif VP_PART == 5
B2(uint8_t, 0) B2(uint8_t, 1) B2(uint8_t, 7) B2(uint16_t, 3) B2(uint16_t, 15) B2(uint32_t, 1) B2(uint32_t, 31) B2(uint64_t, 1) B2(uint64_t, 32) B2(uint64_t, 63)
#endif
};
}
