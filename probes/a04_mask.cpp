// A04: mask logic
#include "probe.hpp"
namespace vp {
#define MB(NAME, E) struct NAME { template<class V> static V impl(const V &a, const V &b) { return E; } static bool lane(bool a, bool b) { return E; } };
MB(m_and, a & b) MB(m_or, a | b) MB(m_xor, a ^ b) MB(m_land, a && b) MB(m_lor, a || b) MB(m_eq, a == b) MB(m_ne, a != b)
#define MA(NAME, OPR) struct NAME { template<class V> static V impl(V a, const V &b) { auto &r = (a OPR b); return &r == &a ? a : V{}; } static bool lane(bool a, bool b) { a OPR b; return a; } };
MA(m_andeq, &=) MA(m_oreq, |=) MA(m_xoreq, ^=)
#define MU(NAME, E, L) struct NAME { template<class V> static V impl(const V &a) { return E; } static bool lane(bool a) { return L; } };
MU(m_inv, ~a, !a) MU(m_not, !a, !a)
PROBES {
#if VP_PART == 0
ALL(P_MMM, "A04", m_and) ALL(P_MMM, "A04", m_or) ALL(P_MMM, "A04", m_xor) ALL(P_MMM, "A04", m_land) ALL(P_MMM, "A04", m_lor) ALL(P_MMM, "A04", m_eq) ALL(P_MMM, "A04", m_ne)
#elif VP_PART == 1
ALL(P_MMM, "A04", m_andeq) ALL(P_MMM, "A04", m_oreq) ALL(P_MMM, "A04", m_xoreq) ALL(P_MM, "A04", m_inv) ALL(P_MM, "A04", m_not)
#endif
};
}
