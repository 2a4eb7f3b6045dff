// Probe framework: every probe pairs a call of dpm's public API (impl) with a plain
// scalar C++ loop over the same lanes (ref).  Nothing here is ever executed: the
// translation unit is compiled to LLVM IR and read by the analyser (engine/).
#pragma once
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <cmath>
#include <cstring>
#include <cstdint>
#include <cstddef>
#include <limits>
#include <type_traits>

namespace vp
{
	using namespace dpm;
	using dpm::simd_abi::ext::aligned_vector;
	using dpm::simd_abi::ext::packed_buffer;
	using dpm::simd_abi::fixed_size;
	using dpm::simd_abi::scalar;

	// argument kinds
	enum : unsigned {
		END = 0,
		IN,      // raw lanes, read only
		OUT,     // written lanes (initial contents: poison "old" leaves)
		INOUT,   // raw lanes, read and written
		MSK_IN,  // mask lanes, all-ones / zero (lane_bytes wide), from one boolean leaf per lane
		MSK_OUT,
		BOOL_IN, // one byte per lane, value 0/1 from one boolean leaf per lane
		BOOL_OUT,
		OKARG,   // one byte per lane, written by the reference only: lanes on which the comparison applies
		MSK_INOUT, BOOL_INOUT,
		BUF_IN,  // user memory, read only: accesses outside are violations
		BUF_OUT, // user memory, write only region, must be written exactly where the reference writes
		STATE_OUT,
		IDX_IN, // an index (32 significant bits): ordered before everything else in the bit domain
	};

	// comparison modes
	enum : unsigned { BITS = 0, FP = 1 /* any NaN equals any NaN */, FPZ = 2 /* and -0 == +0 */, SIGNSPLIT = 3 };

	struct Arg { unsigned kind, lanes, lane_bytes, bytes, align, mode; };
	inline constexpr Arg IDX{IDX_IN, 1, 8, 8, 8, BITS};
	using Fn = void (*)(void *, void *, void *, void *, void *, void *);
	struct Probe {
		const char *prop, *op, *type, *abi;
		Fn impl, ref;
		unsigned nargs, flags;
		Arg args[6];
	};
	enum : unsigned { SPLAT = 1, NOREF = 2, REASSOC = 4, NEGSYM = 8, EXACT = 16, SPECIAL = 32, ACC = 64 };

	template<class V, bool = dpm::is_simd_mask_v<V>, bool = dpm::is_simd_v<V>> struct Meta;
	template<class M> struct Meta<M, true, false> {
		static constexpr bool wide = !std::is_same_v<typename M::reference, bool &>;
		static constexpr unsigned N = M::size();
		static constexpr unsigned LB = wide ? sizeof(typename M::simd_type::value_type) : 1;
		static constexpr Arg in{wide ? MSK_IN : BOOL_IN, N, LB, sizeof(M), alignof(M), BITS};
		static constexpr Arg out{wide ? MSK_OUT : BOOL_OUT, N, LB, sizeof(M), alignof(M), BITS};
		static constexpr Arg inout{wide ? MSK_INOUT : BOOL_INOUT, N, LB, sizeof(M), alignof(M), BITS};
		using lane_t = bool;
		static bool get(const void *p, unsigned i) {
			if constexpr (wide) return static_cast<const unsigned char *>(p)[i * LB] != 0;
			else return static_cast<const bool *>(p)[i];
		}
		static void put(void *p, unsigned i, bool b) {
			for (unsigned k = 0; k < LB; ++k) static_cast<unsigned char *>(p)[i * LB + k] = wide ? (b ? 0xff : 0) : b;
		}
	};
	template<class V> struct Meta<V, false, true> {
		using T = typename V::value_type;
		static constexpr unsigned N = V::size();
		static constexpr unsigned MODE = std::is_floating_point_v<T> ? FP : BITS;
		static constexpr Arg in{IN, N, sizeof(T), sizeof(V), alignof(V), MODE};
		static constexpr Arg out{OUT, N, sizeof(T), sizeof(V), alignof(V), MODE};
		static constexpr Arg inout{INOUT, N, sizeof(T), sizeof(V), alignof(V), MODE};
		using lane_t = T;
		static T get(const void *p, unsigned i) { return static_cast<const T *>(p)[i]; }
		static void put(void *p, unsigned i, T v) { static_cast<T *>(p)[i] = v; }
	};
	template<class S> struct Meta<S, false, false> {
		static constexpr unsigned N = 1;
		static constexpr unsigned MODE = std::is_floating_point_v<S> ? FP : BITS;
		static constexpr bool isb = std::is_same_v<S, bool>;
		static constexpr Arg in{isb ? BOOL_IN : IN, 1, sizeof(S), sizeof(S), alignof(S), MODE};
		static constexpr Arg out{isb ? BOOL_OUT : OUT, 1, sizeof(S), sizeof(S), alignof(S), MODE};
		static constexpr Arg inout{isb ? BOOL_INOUT : INOUT, 1, sizeof(S), sizeof(S), alignof(S), MODE};
		using lane_t = S;
		static S get(const void *p, unsigned) { return *static_cast<const S *>(p); }
		static void put(void *p, unsigned, S v) { *static_cast<S *>(p) = v; }
	};

	template<class V> static inline V load(const void *p) { V v; std::memcpy(static_cast<void *>(&v), p, sizeof(V)); return v; }
	template<class V> static inline void store(void *p, const V &v) { std::memcpy(p, static_cast<const void *>(&v), sizeof(V)); }
	template<class V> static inline decltype(auto) get(const void *p, unsigned i) { return Meta<V>::get(p, i); }

	// Lane-wise probes.  Op::impl(Args...) -> Ret (dpm call); Op::lane(lanes...) -> lane of Ret;
	// optional Op::ok(lanes...) -> lanes where the contract applies.
	template<class Op, class Ret, class... As> struct Lane;
	template<class Op, class Ret, class A> struct Lane<Op, Ret, A> {
		static void I(void *o, void *k, void *a, void *, void *, void *) { store<Ret>(o, Op::impl(load<A>(a))); }
		static void R(void *o, void *k, void *a, void *, void *, void *) {
			for (unsigned i = 0; i < Meta<Ret>::N; ++i) {
				if constexpr (requires { Op::ok(get<A>(a, i)); }) Meta<bool>::put(static_cast<char *>(k) + i, 0, Op::ok(get<A>(a, i)));
				else Meta<bool>::put(static_cast<char *>(k) + i, 0, true);
				Meta<Ret>::put(o, i, Op::lane(get<A>(a, i)));
			}
		}
		static constexpr Probe mk(const char *p, const char *op, const char *t, const char *abi, unsigned m = ~0u) {
			Arg o = Meta<Ret>::out; if (m != ~0u) o.mode = m;
			return {p, op, t, abi, &I, &R, 3, 0, {o, {OKARG, Meta<Ret>::N, 1, Meta<Ret>::N, 1, 0}, Meta<A>::in}};
		}
	};
	template<class Op, class Ret, class A, class B> struct Lane<Op, Ret, A, B> {
		static void I(void *o, void *k, void *a, void *b, void *, void *) { store<Ret>(o, Op::impl(load<A>(a), load<B>(b))); }
		static void R(void *o, void *k, void *a, void *b, void *, void *) {
			for (unsigned i = 0; i < Meta<Ret>::N; ++i) {
				if constexpr (requires { Op::ok(get<A>(a, i), get<B>(b, i)); }) Meta<bool>::put(static_cast<char *>(k) + i, 0, Op::ok(get<A>(a, i), get<B>(b, i)));
				else Meta<bool>::put(static_cast<char *>(k) + i, 0, true);
				Meta<Ret>::put(o, i, Op::lane(get<A>(a, i), get<B>(b, i)));
			}
		}
		static constexpr Probe mk(const char *p, const char *op, const char *t, const char *abi, unsigned m = ~0u) {
			Arg o = Meta<Ret>::out; if (m != ~0u) o.mode = m;
			return {p, op, t, abi, &I, &R, 4, 0, {o, {OKARG, Meta<Ret>::N, 1, Meta<Ret>::N, 1, 0}, Meta<A>::in, Meta<B>::in}};
		}
	};
	template<class Op, class Ret, class A, class B, class C> struct Lane<Op, Ret, A, B, C> {
		static void I(void *o, void *k, void *a, void *b, void *c, void *) { store<Ret>(o, Op::impl(load<A>(a), load<B>(b), load<C>(c))); }
		static void R(void *o, void *k, void *a, void *b, void *c, void *) {
			for (unsigned i = 0; i < Meta<Ret>::N; ++i) {
				if constexpr (requires { Op::ok(get<A>(a, i), get<B>(b, i), get<C>(c, i)); })
					Meta<bool>::put(static_cast<char *>(k) + i, 0, Op::ok(get<A>(a, i), get<B>(b, i), get<C>(c, i)));
				else Meta<bool>::put(static_cast<char *>(k) + i, 0, true);
				Meta<Ret>::put(o, i, Op::lane(get<A>(a, i), get<B>(b, i), get<C>(c, i)));
			}
		}
		static constexpr Probe mk(const char *p, const char *op, const char *t, const char *abi, unsigned m = ~0u) {
			Arg o = Meta<Ret>::out; if (m != ~0u) o.mode = m;
			return {p, op, t, abi, &I, &R, 5, 0, {o, {OKARG, Meta<Ret>::N, 1, Meta<Ret>::N, 1, 0}, Meta<A>::in, Meta<B>::in, Meta<C>::in}};
		}
	};
	// Reductions: Op::impl(V) -> scalar; Op::ref<A>(memory of the argument) -> scalar; optional Op::ok<A>(memory)
	template<class Op, class Ret, class A> struct Red {
		static void I(void *o, void *k, void *a, void *, void *, void *) { store<Ret>(o, static_cast<Ret>(Op::impl(load<A>(a)))); }
		static void R(void *o, void *k, void *a, void *, void *, void *) {
			if constexpr (requires { Op::template ok<A>(a); }) Meta<bool>::put(k, 0, Op::template ok<A>(a)); else Meta<bool>::put(k, 0, true);
			Meta<Ret>::put(o, 0, Op::template ref<A>(a));
		}
		static constexpr Probe mk(const char *p, const char *op, const char *t, const char *abi) {
			return {p, op, t, abi, &I, &R, 3, 0, {Meta<Ret>::out, {OKARG, 1, 1, 1, 1, 0}, Meta<A>::in}};
		}
	};
	// Rearrangements: Op::impl(V) -> W ; Op::ref<W, A>(out, memory)
	template<class Op, class Ret, class A> struct Map {
		static void I(void *o, void *k, void *a, void *, void *, void *) { store<Ret>(o, Op::impl(load<A>(a))); }
		static void R(void *o, void *k, void *a, void *, void *, void *) { for (unsigned i = 0; i < Meta<Ret>::N; ++i) { Meta<bool>::put(static_cast<char *>(k) + i, 0, true); Meta<Ret>::put(o, i, Op::template lane<Ret, A>(a, i)); } }
		static constexpr Probe mk(const char *p, const char *op, const char *t, const char *abi) {
			return {p, op, t, abi, &I, &R, 3, 0, {Meta<Ret>::out, {OKARG, Meta<Ret>::N, 1, Meta<Ret>::N, 1, 0}, Meta<A>::in}};
		}
	};
	// Whole-object probes: Op::I / Op::R have the raw signature and say themselves what they do.
}

// ABI instances.  "fix"/"sml" leave a partial last native vector; "v256" spans two 128-bit vectors without AVX.
namespace vp {
	template<class T> using v128 = aligned_vector<16 / sizeof(T), 16>;
	template<class T> using v256 = aligned_vector<32 / sizeof(T), 32>;
	template<class T> using fix = fixed_size<32 / sizeof(T) - (sizeof(T) == 8 ? 1 : sizeof(T) == 1 ? 5 : sizeof(T) == 2 ? 3 : 1)>;
	template<class T> using sml = fixed_size<sizeof(T) == 8 ? 2 : sizeof(T) == 4 ? 3 : sizeof(T) == 2 ? 5 : 11>;
	template<class T> using wid = fixed_size<64 / sizeof(T) + 1>;
	template<class T> using odd = fixed_size<16 / sizeof(T) + 1>;
	template<class T> using sca = scalar;
	template<class T> using pak = packed_buffer<3>;
	template<class T, template<class> class AB> using vec = simd<T, AB<T>>;
	template<class T, template<class> class AB> using msk = simd_mask<T, AB<T>>;
}
#define VP_ABIS(X, ...) X(v128, __VA_ARGS__) X(v256, __VA_ARGS__) X(fix, __VA_ARGS__) X(sml, __VA_ARGS__) X(sca, __VA_ARGS__) X(pak, __VA_ARGS__) X(wid, __VA_ARGS__) X(odd, __VA_ARGS__)
using std::int8_t; using std::uint8_t; using std::int16_t; using std::uint16_t;
using std::int32_t; using std::uint32_t; using std::int64_t; using std::uint64_t;
#define VP_SINTS(X, ...) X(int8_t, __VA_ARGS__) X(int16_t, __VA_ARGS__) X(int32_t, __VA_ARGS__) X(int64_t, __VA_ARGS__)
#define VP_UINTS(X, ...) X(uint8_t, __VA_ARGS__) X(uint16_t, __VA_ARGS__) X(uint32_t, __VA_ARGS__) X(uint64_t, __VA_ARGS__)
#define VP_INTS(X, ...) VP_SINTS(X, __VA_ARGS__) VP_UINTS(X, __VA_ARGS__)
#define VP_FLTS(X, ...) X(float, __VA_ARGS__) X(double, __VA_ARGS__)
#define VP_ALL(X, ...) VP_INTS(X, __VA_ARGS__) VP_FLTS(X, __VA_ARGS__)
// shapes: V vector, S scalar, M mask, B bool ; first letter is the result
#define VP_V1(T, AB) vec<T, AB>
#define P_VV(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_VVV(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_VVS(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>, T>::mk(PR, #OP, #T, #AB),
#define P_VVVV(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_VVSS(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>, T, T>::mk(PR, #OP, #T, #AB),
#define P_MV(AB, PR, OP, T) Lane<OP, msk<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_MVV(AB, PR, OP, T) Lane<OP, msk<T, AB>, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_MVS(AB, PR, OP, T) Lane<OP, msk<T, AB>, vec<T, AB>, T>::mk(PR, #OP, #T, #AB),
#define P_MM(AB, PR, OP, T) Lane<OP, msk<T, AB>, msk<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_MMM(AB, PR, OP, T) Lane<OP, msk<T, AB>, msk<T, AB>, msk<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_MMMM(AB, PR, OP, T) Lane<OP, msk<T, AB>, msk<T, AB>, msk<T, AB>, msk<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_VMVV(AB, PR, OP, T) Lane<OP, vec<T, AB>, msk<T, AB>, vec<T, AB>, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_BM(AB, PR, OP, T) Red<OP, bool, msk<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_ZM(AB, PR, OP, T) Red<OP, std::size_t, msk<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_SV(AB, PR, OP, T) Red<OP, T, vec<T, AB>>::mk(PR, #OP, #T, #AB),
#define P_MB(AB, PR, OP, T) Lane<OP, msk<T, AB>, bool>::mk(PR, #OP, #T, #AB),
#define P_VS(AB, PR, OP, T) Lane<OP, vec<T, AB>, T>::mk(PR, #OP, #T, #AB),
#define P_VI(AB, PR, OP, T) Lane<OP, vec<T, AB>, vec<T, AB>, int>::mk(PR, #OP, #T, #AB),
#define VP_T(T, P, PR, OP) VP_ABIS(P, PR, OP, T)
#define ALL(P, PR, OP) VP_ALL(VP_T, P, PR, OP)
#define INTS(P, PR, OP) VP_INTS(VP_T, P, PR, OP)
#define SINTS(P, PR, OP) VP_SINTS(VP_T, P, PR, OP)
#define UINTS(P, PR, OP) VP_UINTS(VP_T, P, PR, OP)
#define FLTS(P, PR, OP) VP_FLTS(VP_T, P, PR, OP)
// every number of elements up to just past one native vector, for both native widths: X(N, ALIGN, ...)
#define VP_N3(X, A, ...) X(2, A, __VA_ARGS__) X(3, A, __VA_ARGS__)
#define VP_N5(X, A, ...) VP_N3(X, A, __VA_ARGS__) X(4, A, __VA_ARGS__) X(5, A, __VA_ARGS__)
#define VP_N9(X, A, ...) VP_N5(X, A, __VA_ARGS__) X(6, A, __VA_ARGS__) X(7, A, __VA_ARGS__) X(8, A, __VA_ARGS__) X(9, A, __VA_ARGS__)
#define VP_N17(X, A, ...) VP_N9(X, A, __VA_ARGS__) X(10, A, __VA_ARGS__) X(11, A, __VA_ARGS__) X(12, A, __VA_ARGS__) X(13, A, __VA_ARGS__) X(14, A, __VA_ARGS__) X(15, A, __VA_ARGS__) X(16, A, __VA_ARGS__) X(17, A, __VA_ARGS__)
#define VP_N33(X, A, ...) VP_N17(X, A, __VA_ARGS__) X(18, A, __VA_ARGS__) X(19, A, __VA_ARGS__) X(20, A, __VA_ARGS__) X(21, A, __VA_ARGS__) X(22, A, __VA_ARGS__) X(23, A, __VA_ARGS__) X(24, A, __VA_ARGS__) X(25, A, __VA_ARGS__) X(26, A, __VA_ARGS__) X(27, A, __VA_ARGS__) X(28, A, __VA_ARGS__) X(29, A, __VA_ARGS__) X(30, A, __VA_ARGS__) X(31, A, __VA_ARGS__) X(32, A, __VA_ARGS__) X(33, A, __VA_ARGS__)
#define VP_SIZES(X, ...) VP_N17(X, 16, int8_t, __VA_ARGS__) VP_N33(X, 32, int8_t, __VA_ARGS__) VP_N9(X, 16, int16_t, __VA_ARGS__) VP_N17(X, 32, int16_t, __VA_ARGS__) VP_N5(X, 16, int32_t, __VA_ARGS__) VP_N9(X, 32, int32_t, __VA_ARGS__) VP_N3(X, 16, int64_t, __VA_ARGS__) VP_N5(X, 32, int64_t, __VA_ARGS__) \
	VP_N5(X, 16, float, __VA_ARGS__) VP_N9(X, 32, float, __VA_ARGS__) VP_N3(X, 16, double, __VA_ARGS__) VP_N5(X, 32, double, __VA_ARGS__)
#define PROBES __attribute__((used)) static const Probe vp_probes[] =
#define BINOP(NAME, E) struct NAME { template<class V, class W> static V impl(const V &a, const W &b) { return E; } template<class T> static T lane(T a, T b) { return static_cast<T>(E); } };
#define UNOP(NAME, E) struct NAME { template<class V> static V impl(const V &a) { return E; } template<class T> static T lane(T a) { return static_cast<T>(E); } };
// compound assignment: result object, and the returned reference must be the left operand
#define ASSIGN(NAME, OPR, E) struct NAME { template<class V, class W> static V impl(V a, const W &b) { auto &r = (a OPR b); return &r == &a ? a : V{}; } template<class T> static T lane(T a, T b) { return static_cast<T>(E); } };
