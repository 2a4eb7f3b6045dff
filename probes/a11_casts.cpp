// A11: conversions between vector types and between mask types.
#include "memory.hpp"
using namespace vp;
template<class W> struct SimdCast { template<class V> static auto impl(const V &v) { return dpm::simd_cast<W>(v); } };
template<class W> struct StaticCast { template<class V> static auto impl(const V &v) { return dpm::static_simd_cast<W>(v); } };
template<class W> struct ConvertTo { template<class V> static W impl(const V &v) { return static_cast<W>(v); } };
template<class W> struct InitFrom { template<class V> static W impl(const V &v) { W w = v; return w; } };
struct ToFixed { template<class V> static auto impl(const V &v) { return dpm::to_fixed_size(v); } };
struct ToNative { template<class V> static auto impl(const V &v) { return dpm::to_native(v); } };
struct ToCompat { template<class V> static auto impl(const V &v) { return dpm::to_compatible(v); } };
template<class OP, class V> struct Cast {
	using R = std::remove_cvref_t<decltype(OP::impl(std::declval<V>()))>; static_assert(R::size() == V::size());
	using U = typename R::value_type; using T = typename V::value_type;
	static void I(void *o, void *, void *a, void *, void *, void *) { store<R>(o, OP::impl(load<V>(a))); }
	static void F(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < R::size(); ++i) {
		const T x = Meta<V>::get(a, i); if (defined<U, T>(x)) { Meta<bool>::put(static_cast<char *>(k) + i, 0, true); Meta<R>::put(o, i, static_cast<U>(x)); } else { Meta<bool>::put(static_cast<char *>(k) + i, 0, false); Meta<R>::put(o, i, U{}); } } }
	static constexpr Probe mk(const char *op, const char *t, const char *abi) { return {"A11", op, t, abi, &I, &F, 3, 0, {Meta<R>::out, {OKARG, R::size(), 1, R::size(), 1, 0}, Meta<V>::in}}; }
};
// conversions to the element type U: target width fits the source ABI
template<class U, class V> using fixedof = simd<U, fixed_size<V::size()>>;
template<class U, class V> using packof = simd<U, packed_buffer<V::size()>>;
template<class U, class V> using alof = simd<U, aligned_vector<V::size(), 16>>;
#define VE_(T, AB) vec<T, AB>
#define C1(AB, T, U) Cast<SimdCast<U>, vec<T, AB>>::mk("simd_cast_" #U, #T, #AB), Cast<StaticCast<U>, vec<T, AB>>::mk("static_simd_cast_" #U, #T, #AB), \
	Cast<SimdCast<fixedof<U, vec<T, AB>>>, vec<T, AB>>::mk("simd_cast_fixed_" #U, #T, #AB), Cast<StaticCast<packof<U, vec<T, AB>>>, vec<T, AB>>::mk("static_simd_cast_packed_" #U, #T, #AB), \
	Cast<ConvertTo<alof<U, vec<T, AB>>>, vec<T, AB>>::mk("convert_aligned_" #U, #T, #AB), Cast<InitFrom<packof<U, vec<T, AB>>>, vec<T, AB>>::mk("init_packed_" #U, #T, #AB),
#define CU(U, T) C1(v128, T, U) C1(v256, T, U) C1(fix, T, U) C1(sml, T, U) C1(sca, T, U) C1(pak, T, U) C1(wid, T, U) C1(odd, T, U)
#define M1(AB, T, U) Cast<ConvertTo<simd_mask<U, fixed_size<msk<T, AB>::size()>>>, msk<T, AB>>::mk("mask_fixed_" #U, #T, #AB), Cast<InitFrom<simd_mask<U, packed_buffer<msk<T, AB>::size()>>>, msk<T, AB>>::mk("mask_packed_" #U, #T, #AB), \
	Cast<ConvertTo<simd_mask<U, aligned_vector<msk<T, AB>::size(), 16>>>, msk<T, AB>>::mk("mask_aligned_" #U, #T, #AB),
#define MU(U, T) M1(v128, T, U) M1(v256, T, U) M1(fix, T, U) M1(sml, T, U) M1(sca, T, U) M1(pak, T, U) M1(wid, T, U) M1(odd, T, U)
template<class T> using nat = typename dpm::native_simd<T>::abi_type;
template<class T> using natf = fixed_size<dpm::native_simd<T>::size()>;
template<class T> using natp = packed_buffer<dpm::native_simd<T>::size()>;
template<class T> using com = typename dpm::simd<T>::abi_type;
template<class T> using comf = fixed_size<dpm::simd<T>::size()>;
template<class T> using comp = packed_buffer<dpm::simd<T>::size()>;
#define TF(AB, T) Cast<ToFixed, vec<T, AB>>::mk("to_fixed_size", #T, #AB), Cast<ToFixed, msk<T, AB>>::mk("mask_to_fixed_size", #T, #AB),
#define TN(AB, T) Cast<ToNative, vec<T, AB>>::mk("to_native", #T, #AB), Cast<ToNative, msk<T, AB>>::mk("mask_to_native", #T, #AB),
#define TC(AB, T) Cast<ToCompat, vec<T, AB>>::mk("to_compatible", #T, #AB), Cast<ToCompat, msk<T, AB>>::mk("mask_to_compatible", #T, #AB),
#define TOS(T, ...) TF(v128, T) TF(v256, T) TF(fix, T) TF(sml, T) TF(sca, T) TF(pak, T) TF(wid, T) TF(odd, T) TN(natf, T) TN(natp, T) TN(nat, T) TC(comf, T) TC(comp, T) TC(com, T)
#define PARTN(T, X) PROBES { VP_ALL(X, T) };
#if VP_PART == 0
PARTN(int8_t, CU)
#elif VP_PART == 1
PARTN(int16_t, CU)
#elif VP_PART == 2
PARTN(int32_t, CU)
#elif VP_PART == 3
PARTN(int64_t, CU)
#elif VP_PART == 4
PARTN(uint8_t, CU)
#elif VP_PART == 5
PARTN(uint16_t, CU)
#elif VP_PART == 6
PARTN(uint32_t, CU)
#elif VP_PART == 7
PARTN(uint64_t, CU)
#elif VP_PART == 8
PARTN(float, CU)
#elif VP_PART == 9
PARTN(double, CU)
#elif VP_PART == 10
PROBES { VP_ALL(MU, int8_t) VP_ALL(MU, int16_t) VP_ALL(MU, float) };
#elif VP_PART == 11
PROBES { VP_ALL(MU, int64_t) VP_ALL(MU, uint32_t) VP_ALL(MU, double) };
#else
PROBES { VP_ALL(TOS) };
#endif
