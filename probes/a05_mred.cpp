// A05: mask reductions
#include "probe.hpp"
namespace vp {
template<class A> static unsigned cnt(const void *p) { unsigned n = 0; for (unsigned i = 0; i < Meta<A>::N; ++i) n += get<A>(p, i); return n; }
#define MR(NAME, R, E) struct NAME { template<class V> static R impl(const V &a) { return NAME##_call(a); } template<class A> static R ref(const void *p) { E } };
struct all_of_ { template<class V> static bool impl(const V &a) { return all_of(a); } template<class A> static bool ref(const void *p) { bool r = true; for (unsigned i = 0; i < Meta<A>::N; ++i) r = r & get<A>(p, i); return r; } };
struct any_of_ { template<class V> static bool impl(const V &a) { return any_of(a); } template<class A> static bool ref(const void *p) { bool r = false; for (unsigned i = 0; i < Meta<A>::N; ++i) r = r | get<A>(p, i); return r; } };
struct none_of_ { template<class V> static bool impl(const V &a) { return none_of(a); } template<class A> static bool ref(const void *p) { return !any_of_::ref<A>(p); } };
struct some_of_ { template<class V> static bool impl(const V &a) { return some_of(a); } template<class A> static bool ref(const void *p) { return any_of_::ref<A>(p) & !all_of_::ref<A>(p); } };
struct count_ { template<class V> static std::size_t impl(const V &a) { return reduce_count(a); } template<class A> static std::size_t ref(const void *p) { std::size_t n = 0; for (unsigned i = 0; i < Meta<A>::N; ++i) n += get<A>(p, i); return n; } };
struct min_index_ { template<class V> static std::size_t impl(const V &a) { return reduce_min_index(a); } template<class A> static bool ok(const void *p) { return any_of_::ref<A>(p); } template<class A> static std::size_t ref(const void *p) { std::size_t r = 0; for (unsigned i = Meta<A>::N; i-- > 0;) if (get<A>(p, i)) r = i; return r; } };
struct max_index_ { template<class V> static std::size_t impl(const V &a) { return reduce_max_index(a); } template<class A> static bool ok(const void *p) { return any_of_::ref<A>(p); } template<class A> static std::size_t ref(const void *p) { std::size_t r = 0; for (unsigned i = 0; i < Meta<A>::N; ++i) if (get<A>(p, i)) r = i; return r; } };
// the bool overloads
#define BR(NAME, FN, R, E) struct NAME { static R impl(bool a) { return FN(a); } template<class A> static R ref(const void *p) { bool a = get<bool>(p, 0); return E; } };
BR(b_all, all_of, bool, a) BR(b_any, any_of, bool, a) BR(b_none, none_of, bool, !a) BR(b_some, some_of, bool, (a & false)) BR(b_cnt, reduce_count, std::size_t, a)
#define B1(OP, R) Red<OP, R, bool>::mk("A05", #OP, "bool", "bool"),
#define S_BM(NN, AL, TT, OP) Red<OP, bool, simd_mask<TT, aligned_vector<NN, AL>>>::mk("A05", #OP, #TT, "a" #AL "x" #NN),
#define S_ZM(NN, AL, TT, OP) Red<OP, std::size_t, simd_mask<TT, aligned_vector<NN, AL>>>::mk("A05", #OP, #TT, "a" #AL "x" #NN),
PROBES {
#if VP_PART == 0
ALL(P_BM, "A05", all_of_) ALL(P_BM, "A05", any_of_) ALL(P_BM, "A05", none_of_) ALL(P_BM, "A05", some_of_)
B1(b_all, bool) B1(b_any, bool) B1(b_none, bool) B1(b_some, bool) B1(b_cnt, std::size_t)
#elif VP_PART == 1
ALL(P_ZM, "A05", count_) ALL(P_ZM, "A05", min_index_) ALL(P_ZM, "A05", max_index_)
#elif VP_PART == 2
VP_SIZES(S_BM, all_of_) VP_SIZES(S_BM, any_of_) VP_SIZES(S_BM, none_of_) VP_SIZES(S_BM, some_of_)
#elif VP_PART == 3
VP_SIZES(S_ZM, count_) VP_SIZES(S_ZM, min_index_) VP_SIZES(S_ZM, max_index_)
#endif
};
}
