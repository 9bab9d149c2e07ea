// Stand-ins for the SVML intrinsics (documented signatures), which this compiler does not have. Force-included.
// They work lane by lane: with MC_SVML_TAG they return a value that identifies the routine and its operands, else the result of the std function.
#pragma once
#include <immintrin.h>
#include <bit>
#include <cmath>
#include <cstdint>
#include <type_traits>
namespace mc_svml
{
enum id { exp = 1, exp2, expm1, log, log2, log10, log1p, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, erf, erfc, cbrt, logb, pow, atan2 };
// a finite number in [1, 2) whose low bits depend on everything
template<class T> inline T tag(int f, T x, T y = 0)
{
    using U = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
    std::uint64_t h = std::uint64_t(f) * 0x9E3779B97F4A7C15ull;
    for (std::uint64_t v : {std::uint64_t(std::bit_cast<U>(x)), std::uint64_t(std::bit_cast<U>(y))}) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
    if (sizeof(T) == 4) return std::bit_cast<T>(U(0x3f800000u | ((h >> 20) & 0x7fffff)));
    return std::bit_cast<T>(U(0x3ff0000000000000ull | (h & 0xfffffffffffffull)));
}
template<class T, class V, class F> inline V lanes(V x, V y, F f)
{
    T a[sizeof(V) / sizeof(T)], b[sizeof(V) / sizeof(T)];
    __builtin_memcpy(a, &x, sizeof x);
    __builtin_memcpy(b, &y, sizeof y);
    for (std::size_t i = 0; i < sizeof(V) / sizeof(T); ++i) a[i] = f(a[i], b[i]);
    __builtin_memcpy(&x, a, sizeof x);
    return x;
}
} // namespace mc_svml
#ifdef MC_SVML_TAG
#define MC_SVML_E1(NAME) mc_svml::tag(mc_svml::NAME, x)
#define MC_SVML_E2(NAME) mc_svml::tag(mc_svml::NAME, x, y)
#else
#define MC_SVML_E1(NAME) std::NAME(x)
#define MC_SVML_E2(NAME) std::NAME(x, y)
#endif
#define MC_SVML_V1(FN, V, T, EXPR) static inline V FN(V a) { return mc_svml::lanes<T>(a, a, [](T x, T) -> T { return EXPR; }); }
#define MC_SVML_V2(FN, V, T, EXPR) static inline V FN(V a, V b) { return mc_svml::lanes<T>(a, b, [](T x, T y) -> T { return EXPR; }); }
#ifdef __AVX__
#define MC_SVML_1(NAME) MC_SVML_V1(_mm_##NAME##_ps, __m128, float, MC_SVML_E1(NAME)) MC_SVML_V1(_mm_##NAME##_pd, __m128d, double, MC_SVML_E1(NAME)) \
    MC_SVML_V1(_mm256_##NAME##_ps, __m256, float, MC_SVML_E1(NAME)) MC_SVML_V1(_mm256_##NAME##_pd, __m256d, double, MC_SVML_E1(NAME))
#define MC_SVML_2(NAME) MC_SVML_V2(_mm_##NAME##_ps, __m128, float, MC_SVML_E2(NAME)) MC_SVML_V2(_mm_##NAME##_pd, __m128d, double, MC_SVML_E2(NAME)) \
    MC_SVML_V2(_mm256_##NAME##_ps, __m256, float, MC_SVML_E2(NAME)) MC_SVML_V2(_mm256_##NAME##_pd, __m256d, double, MC_SVML_E2(NAME))
#else
#define MC_SVML_1(NAME) MC_SVML_V1(_mm_##NAME##_ps, __m128, float, MC_SVML_E1(NAME)) MC_SVML_V1(_mm_##NAME##_pd, __m128d, double, MC_SVML_E1(NAME))
#define MC_SVML_2(NAME) MC_SVML_V2(_mm_##NAME##_ps, __m128, float, MC_SVML_E2(NAME)) MC_SVML_V2(_mm_##NAME##_pd, __m128d, double, MC_SVML_E2(NAME))
#endif
MC_SVML_1(exp) MC_SVML_1(exp2) MC_SVML_1(expm1) MC_SVML_1(log) MC_SVML_1(log2) MC_SVML_1(log10) MC_SVML_1(log1p)
MC_SVML_1(sin) MC_SVML_1(cos) MC_SVML_1(tan) MC_SVML_1(asin) MC_SVML_1(acos) MC_SVML_1(atan)
MC_SVML_1(sinh) MC_SVML_1(cosh) MC_SVML_1(tanh) MC_SVML_1(asinh) MC_SVML_1(acosh) MC_SVML_1(atanh)
MC_SVML_1(erf) MC_SVML_1(erfc) MC_SVML_1(cbrt) MC_SVML_1(logb) MC_SVML_2(pow) MC_SVML_2(atan2)
static inline __m128 _mm_sincos_ps(__m128 *c, __m128 x) { *c = _mm_cos_ps(x); return _mm_sin_ps(x); }
static inline __m128d _mm_sincos_pd(__m128d *c, __m128d x) { *c = _mm_cos_pd(x); return _mm_sin_pd(x); }
#ifdef __AVX__
static inline __m256 _mm256_sincos_ps(__m256 *c, __m256 x) { *c = _mm256_cos_ps(x); return _mm256_sin_ps(x); }
static inline __m256d _mm256_sincos_pd(__m256d *c, __m256d x) { *c = _mm256_cos_pd(x); return _mm256_sin_pd(x); }
#endif
MC_SVML_V1(_mm_svml_ceil_ps, __m128, float, std::ceil(x)) MC_SVML_V1(_mm_svml_floor_ps, __m128, float, std::floor(x)) MC_SVML_V1(_mm_svml_round_ps, __m128, float, std::round(x)) MC_SVML_V1(_mm_trunc_ps, __m128, float, std::trunc(x))
MC_SVML_V1(_mm_svml_ceil_pd, __m128d, double, std::ceil(x)) MC_SVML_V1(_mm_svml_floor_pd, __m128d, double, std::floor(x)) MC_SVML_V1(_mm_svml_round_pd, __m128d, double, std::round(x)) MC_SVML_V1(_mm_trunc_pd, __m128d, double, std::trunc(x))
