// A01: element-wise arithmetic and bitwise operators
#include "probe.hpp"
namespace vp {
BINOP(add, a + b) BINOP(sub, a - b) BINOP(mul, a * b) BINOP(bit_and, a & b) BINOP(bit_or, a | b) BINOP(bit_xor, a ^ b)
ASSIGN(add_eq, +=, a + b) ASSIGN(sub_eq, -=, a - b) ASSIGN(mul_eq, *=, a * b) ASSIGN(asg_and, &=, a & b) ASSIGN(asg_or, |=, a | b) ASSIGN(asg_xor, ^=, a ^ b)
UNOP(pos, +a) UNOP(neg, -a) UNOP(inv, ~a)
template<class T> static bool divok(T a, T b) { if constexpr (std::is_integral_v<T>) return b != 0 && !(std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == T(-1)); else return true; }
struct div { template<class V, class W> static V impl(const V &a, const W &b) { return a / b; } template<class T> static T lane(T a, T b) { return static_cast<T>(a / b); } template<class T> static bool ok(T a, T b) { return divok(a, b); } };
struct mod { template<class V, class W> static V impl(const V &a, const W &b) { return a % b; } template<class T> static T lane(T a, T b) { return static_cast<T>(a % b); } template<class T> static bool ok(T a, T b) { return divok(a, b); } };
struct div_eq { template<class V, class W> static V impl(V a, const W &b) { auto &r = (a /= b); return &r == &a ? a : V{}; } template<class T> static T lane(T a, T b) { return static_cast<T>(a / b); } template<class T> static bool ok(T a, T b) { return divok(a, b); } };
struct mod_eq { template<class V, class W> static V impl(V a, const W &b) { auto &r = (a %= b); return &r == &a ? a : V{}; } template<class T> static T lane(T a, T b) { return static_cast<T>(a % b); } template<class T> static bool ok(T a, T b) { return divok(a, b); } };
struct preinc { template<class V> static V impl(V a) { auto &r = ++a; return &r == &a ? a : V{}; } template<class T> static T lane(T a) { return static_cast<T>(a + T(1)); } };
struct predec { template<class V> static V impl(V a) { auto &r = --a; return &r == &a ? a : V{}; } template<class T> static T lane(T a) { return static_cast<T>(a - T(1)); } };
struct postinc { template<class V> static V impl(V a) { (void)a++; return a; } template<class T> static T lane(T a) { return static_cast<T>(a + T(1)); } };
struct postdec { template<class V> static V impl(V a) { (void)a--; return a; } template<class T> static T lane(T a) { return static_cast<T>(a - T(1)); } };
struct postinc_ret { template<class V> static V impl(V a) { return a++; } template<class T> static T lane(T a) { return a; } };
struct postdec_ret { template<class V> static V impl(V a) { return a--; } template<class T> static T lane(T a) { return a; } };
PROBES {
#if VP_PART == 0
ALL(P_VVV, "A01", add) ALL(P_VVV, "A01", sub) ALL(P_VVV, "A01", mul)
ALL(P_VVV, "A01", add_eq) ALL(P_VVV, "A01", sub_eq) ALL(P_VVV, "A01", mul_eq)
#elif VP_PART == 1
ALL(P_VVS, "A01", add) ALL(P_VVS, "A01", sub) ALL(P_VVS, "A01", mul)
ALL(P_VVS, "A01", add_eq) ALL(P_VVS, "A01", sub_eq) ALL(P_VVS, "A01", mul_eq)
#elif VP_PART == 2
INTS(P_VVV, "A01", bit_and) INTS(P_VVV, "A01", bit_or) INTS(P_VVV, "A01", bit_xor) INTS(P_VVV, "A01", asg_and) INTS(P_VVV, "A01", asg_or) INTS(P_VVV, "A01", asg_xor) INTS(P_VV, "A01", inv)
#elif VP_PART == 3
INTS(P_VVS, "A01", bit_and) INTS(P_VVS, "A01", bit_or) INTS(P_VVS, "A01", bit_xor) INTS(P_VVS, "A01", asg_and) INTS(P_VVS, "A01", asg_or) INTS(P_VVS, "A01", asg_xor)
#elif VP_PART == 4
ALL(P_VV, "A01", pos) ALL(P_VV, "A01", neg) ALL(P_VV, "A01", preinc) ALL(P_VV, "A01", predec) ALL(P_VV, "A01", postinc) ALL(P_VV, "A01", postdec) ALL(P_VV, "A01", postinc_ret) ALL(P_VV, "A01", postdec_ret)
#elif VP_PART == 5
ALL(P_VVV, "A01", div) ALL(P_VVV, "A01", div_eq) INTS(P_VVV, "A01", mod) INTS(P_VVV, "A01", mod_eq)
#elif VP_PART == 6
ALL(P_VVS, "A01", div) ALL(P_VVS, "A01", div_eq) INTS(P_VVS, "A01", mod) INTS(P_VVS, "A01", mod_eq)
#endif
};
}
