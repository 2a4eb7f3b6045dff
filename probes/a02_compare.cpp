// A02: element-wise comparisons
#include "probe.hpp"
namespace vp {
#define CMP(NAME, OPR) struct NAME { template<class V, class W> static typename V::mask_type impl(const V &a, const W &b) { return a OPR b; } template<class T> static bool lane(T a, T b) { return a OPR b; } };
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
#define SIX(X, ...) X(__VA_ARGS__, eq) X(__VA_ARGS__, ne) X(__VA_ARGS__, lt) X(__VA_ARGS__, le) X(__VA_ARGS__, gt) X(__VA_ARGS__, ge)
PROBES {
#if VP_PART == 0
SIX(SINTS, P_MVV, "A02")
#elif VP_PART == 1
SIX(UINTS, P_MVV, "A02")
#elif VP_PART == 2
SIX(FLTS, P_MVV, "A02")
#endif
};
}
