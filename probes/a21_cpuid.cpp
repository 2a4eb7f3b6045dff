// A21: the processor queries, for every value CPUID and XGETBV can return.  The constructor that reads the processor is run on
// the query object itself; the reference spells out leaf, register, bit and the state the operating system must have enabled.
#include "probe.hpp"
#define open(...) (-1) /* without OSXSAVE, what the operating system says about SSE is out of reach: see ok_sse */
#include <dpm/detail/x86/cpuid.cpp>
#undef open
#include <new>
using namespace vp;
using dpm::ext::cpuid;
extern "C" std::uint32_t vp_cpuid_eax(std::uint32_t leaf, std::uint32_t sub), vp_cpuid_ebx(std::uint32_t, std::uint32_t), vp_cpuid_ecx(std::uint32_t, std::uint32_t), vp_cpuid_edx(std::uint32_t, std::uint32_t), vp_xcr_eax(std::uint32_t);
using u32 = std::uint32_t;
static u32 c1() { return vp_cpuid_eax(0, 0) >= 1 ? vp_cpuid_ecx(1, 0) : 0; }
static u32 d1() { return vp_cpuid_eax(0, 0) >= 1 ? vp_cpuid_edx(1, 0) : 0; }
static u32 b7() { return vp_cpuid_eax(0, 0) >= 7 ? vp_cpuid_ebx(7, 0) : 0; }
static bool bit(u32 x, int n) { return (x >> n & 1u) != 0; }
static bool os(u32 state) { return bit(c1(), 27) && (vp_xcr_eax(0) & state) == state; }
static bool vendor(u32 b, u32 d, u32 c) { return vp_cpuid_ebx(0, 0) == b && vp_cpuid_edx(0, 0) == d && vp_cpuid_ecx(0, 0) == c; }
template<class Op> struct Q {
	static void I(void *o, void *k, void *, void *, void *, void *) { ::new (const_cast<void *>(static_cast<const void *>(&cpuid::cpu_info))) cpuid(); Meta<bool>::put(o, 0, Op::impl()); }
	static void R(void *o, void *k, void *, void *, void *, void *) { Meta<bool>::put(k, 0, Op::ok()); Meta<bool>::put(o, 0, Op::ref()); }
	static constexpr Probe mk(const char *op) { return {"A21", op, "", "", &I, &R, 2, 0, {Meta<bool>::out, {OKARG, 1, 1, 1, 1, 0}}}; }
};
#define CQ(N, OK, ...) struct N { static bool impl() { return cpuid::N(); } static bool ok() { return OK; } static bool ref() { return __VA_ARGS__; } };
#define QUERIES(X) \
	X(is_intel, true, vendor(0x756e6547, 0x49656e69, 0x6c65746e)) X(is_amd, true, vendor(0x68747541, 0x69746e65, 0x444d4163)) \
	X(has_msr, true, bit(d1(), 5)) X(has_cx8, true, bit(d1(), 8)) X(has_sep, true, bit(d1(), 11)) X(has_cmov, true, bit(d1(), 15)) X(has_clfsh, true, bit(d1(), 19)) \
	X(has_xsave, true, bit(c1(), 27)) X(has_cmpxchg16b, true, bit(c1(), 13)) X(has_f16c, true, bit(c1(), 29) && os(6)) \
	X(has_sse, bit(c1(), 27), bit(d1(), 25) && os(2)) X(has_sse2, bit(c1(), 27), bit(d1(), 26) && os(2)) X(has_sse3, bit(c1(), 27), bit(c1(), 0) && os(2)) X(has_ssse3, bit(c1(), 27), bit(c1(), 9) && os(2)) \
	X(has_sse4_1, bit(c1(), 27), bit(c1(), 19) && os(2)) X(has_sse4_2, bit(c1(), 27), bit(c1(), 20) && os(2)) \
	X(has_avx, true, bit(c1(), 28) && os(6)) X(has_fma, true, bit(c1(), 12) && os(6)) X(has_avx2, true, bit(b7(), 5) && os(6)) \
	X(has_avx512f, true, bit(b7(), 16) && os(0xe6)) X(has_avx512dq, true, bit(b7(), 17) && os(0xe6)) X(has_avx512cd, true, bit(b7(), 28) && os(0xe6)) X(has_avx512bw, true, bit(b7(), 30) && os(0xe6)) X(has_avx512vl, true, bit(b7(), 31) && os(0xe6))
QUERIES(CQ)
#define MK(N, ...) Q<N>::mk(#N),
PROBES { QUERIES(MK) };
