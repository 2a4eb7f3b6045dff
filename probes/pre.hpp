// Included before every analysed unit: the library is shipped with g++, so once the system headers have been read with clang's
// own identity, the sources of /repo are preprocessed as g++ would (code under !defined(__clang__) is what users run).
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cfenv>
#include <cmath>
#include <concepts>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <numbers>
#include <source_location>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <version>
#include <fcntl.h>
#include <unistd.h>
#include <immintrin.h>
// g++ names clang does not know
#define _mm_cvtsi128_si64x _mm_cvtsi128_si64
#define _mm_cvtsi64x_si128 _mm_cvtsi64_si128
#ifndef VP_AS_CLANG
#undef __clang__
#pragma clang diagnostic ignored "-Wbuiltin-macro-redefined"
#undef __has_builtin
#define __has_builtin(X) VP_HAS_##X
#define VP_HAS___builtin_sincosf 1
#define VP_HAS___builtin_sincos 1
#define VP_HAS___builtin_sincosl 1
static inline void vp_sincosf(float x, float *s, float *c) { ::sincosf(x, s, c); }
static inline void vp_sincos(double x, double *s, double *c) { ::sincos(x, s, c); }
static inline void vp_sincosl(long double x, long double *s, long double *c) { ::sincosl(x, s, c); }
#define __builtin_sincosf vp_sincosf
#define __builtin_sincos vp_sincos
#define __builtin_sincosl vp_sincosl
#endif
// A24: analyse the branch each operation takes during constant evaluation
#ifdef VP_CONSTEVAL
namespace std { constexpr bool vp_consteval() noexcept { return true; } }
#define is_constant_evaluated() vp_consteval()
#endif
