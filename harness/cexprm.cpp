// Constant evaluation, continued: mathematical functions and the remaining operations with scalars. Every function is computed
// by the compiler's constant evaluator for every tuple of values in its domain, in vectors with array and with native storage;
// compared with the scalar function computed by the same evaluator. The run-time result is judged as well (approximately,
// where the accuracy of the vector function is the subject of other checks). PART 0: scalar, packed; 1: native storage.
#include "eng.hpp"
#include <array>
#include <cmath>
#include <functional>
#include <utility>
using namespace mc;
using T = MC_T;
constexpr bool FP = std::is_floating_point_v<T>;
using L = std::numeric_limits<T>;
template<class T> constexpr auto make_values()
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>) return std::array<T, 14>{T(0.5), T(-0.5), T(1), T(-1), T(2.5), T(-7.25), T(0.125), T(3), T(-0.99609375), T(12.75), T(0.0078125), T(-2), T(40), T(1.5)};
    else return std::array<T, 14>{T(0), T(1), T(-1), L::min(), L::max(), T(2), T(7), T(-3), T(0x55), T(100), T(0x80), T(L::max() / 3), T(12), T(5)};
}
constexpr auto VALS = make_values<T>();
constexpr std::size_t NV = VALS.size();
template<class V, class I> using with = dpm::simd<I, typename V::abi_type>;
template<class V, class X> constexpr std::array<T, V::size()> elems(const X &x) { std::array<T, V::size()> r{}; for (std::size_t i = 0; i < V::size(); ++i) r[i] = static_cast<T>(x[i]); return r; }
template<class V> constexpr std::array<T, V::size()> fill(T x) { std::array<T, V::size()> r{}; for (auto &e : r) e = x; return r; }
constexpr bool nan(T a) { return a != a; }

// An operation: its vector form f(a, b, s) (s: the scalar operand b[0]), its scalar form, its domain; B: it uses b; S: it uses s;
// EXACT: the run-time result has to be the same.
#define OP(NAME, USE, EXACT_, VEC, SCL, DOM) \
    struct o_##NAME \
    { \
        static constexpr const char *name = #NAME; \
        static constexpr int use = USE; \
        static constexpr bool exact = EXACT_; \
        template<class V> static constexpr auto vec([[maybe_unused]] const V &a, [[maybe_unused]] const V &b, [[maybe_unused]] T s) { VEC; } \
        static constexpr T scl([[maybe_unused]] T a, [[maybe_unused]] T b) { SCL; } \
        static constexpr bool dom([[maybe_unused]] T a, [[maybe_unused]] T b) { return DOM; } \
    };
#define F1(N, DOM) OP(N, 0, false, return elems<V>(dpm::N(a)), return T(std::N(a)), DOM)
#define X1(N, DOM) OP(N, 0, true, return elems<V>(dpm::N(a)), return T(std::N(a)), DOM)
#define F2(N, DOM) OP(N, 1, false, return elems<V>(dpm::N(a, b)), return T(std::N(a, b)), DOM)
#define X2(N, DOM) OP(N, 1, true, return elems<V>(dpm::N(a, b)), return T(std::N(a, b)), DOM)
#define S2(N, M, EX, DOM) OP(N, 2, EX, return elems<V>(dpm::M(a, s)), return T(std::M(a, b)), DOM)
#if MC_FP
F1(exp, true) F1(exp2, true) F1(expm1, true) F1(log, a > 0) F1(log2, a > 0) F1(log10, a > 0) F1(log1p, a > -1)
F1(sin, true) F1(cos, true) F1(tan, true) F1(asin, a <= 1 && a >= -1) F1(acos, a <= 1 && a >= -1) F1(atan, true)
F1(sinh, true) F1(cosh, true) F1(tanh, true) F1(asinh, true) F1(acosh, a >= 1) F1(atanh, a < 1 && a > -1)
F1(erf, true) F1(erfc, a < 9) F1(cbrt, true) F1(tgamma, a > 0 && a < 30) X1(logb, true) X1(ilogb, true) X1(lround, true) X1(llround, true)
F2(pow, a > 0 && b <= 13) F2(hypot, true) F2(atan2, true) X2(nextafter, true) X2(remainder, true)
S2(pow_s, pow, false, a > 0 && b <= 13) X2(isgreaterequal, true) X2(islessequal, true) X2(islessgreater, true)
S2(fmax_s, fmax, true, true) S2(fmin_s, fmin, true, true) S2(fdim_s, fdim, true, true) S2(fmod_s, fmod, true, true) S2(remainder_s, remainder, true, true) S2(copysign_s, copysign, true, true)
OP(rcp, 0, false, return elems<V>(dpm::ext::rcp(a)), return T(1) / a, true)
OP(rsqrt, 0, false, return elems<V>(dpm::ext::rsqrt(a)), return T(1) / std::sqrt(a), a > 0)
OP(lerp, 1, true, return elems<V>(dpm::lerp(a, b, V(T(0.5)))), return std::lerp(a, b, T(0.5)), true)
OP(lerp_s, 1, true, return elems<V>(dpm::lerp(a, b, T(0.25))), return std::lerp(a, b, T(0.25)), true)
OP(scalbn, 0, true, return elems<V>(dpm::scalbn(a, with<V, int>([](auto i) { return int(i) - 1; }))), return a, true)
OP(scalbn_n, 0, true, return elems<V>(dpm::scalbn(a, 3)), return std::scalbn(a, 3), true)
OP(ldexp_n, 0, true, return elems<V>(dpm::ldexp(a, -2)), return std::ldexp(a, -2), true)
OP(scalbln, 0, true, return elems<V>(dpm::scalbln(a, with<V, long>(4L))), return std::scalbln(a, 4L), true)
OP(ldexp, 0, true, return elems<V>(dpm::ldexp(a, with<V, int>(5))), return std::ldexp(a, 5), true)
OP(sincos_s, 0, false, V r; V c; dpm::ext::sincos(a, r, c); return elems<V>(r), return std::sin(a), true)
OP(sincos_c, 0, false, V r; V c; dpm::ext::sincos(a, r, c); return elems<V>(c), return std::cos(a), true)
OP(fmsub, 1, true, return elems<V>(dpm::ext::fmsub(a, b, a)), return std::fma(a, b, -a), true)
OP(fnmadd, 1, true, return elems<V>(dpm::ext::fnmadd(a, b, a)), return std::fma(-a, b, a), true)
using own_ops = std::tuple<o_exp, o_exp2, o_expm1, o_log, o_log2, o_log10, o_log1p, o_sin, o_cos, o_tan, o_asin, o_acos, o_atan, o_sinh, o_cosh, o_tanh, o_asinh, o_acosh, o_atanh, o_erf, o_erfc, o_cbrt, o_tgamma,
    o_logb, o_ilogb, o_lround, o_llround, o_pow, o_hypot, o_atan2, o_nextafter, o_remainder, o_pow_s, o_isgreaterequal, o_islessequal, o_islessgreater, o_fmax_s, o_fmin_s, o_fdim_s, o_fmod_s, o_remainder_s,
    o_copysign_s, o_rcp, o_rsqrt, o_lerp, o_lerp_s, o_scalbn, o_scalbn_n, o_ldexp_n, o_scalbln, o_ldexp, o_sincos_s, o_sincos_c, o_fmsub, o_fnmadd>;
using signed_ops = std::tuple<>;
#else
using U = std::make_unsigned_t<T>;
constexpr int BITS = sizeof(T) * 8;
OP(and_s, 2, true, return elems<V>(a & s), return T(a & b), true)
OP(or_s, 2, true, return elems<V>(a | s), return T(a | b), true)
OP(xor_s, 2, true, return elems<V>(a ^ s), return T(a ^ b), true)
OP(rem_s, 2, true, return elems<V>(a % s), return T(a % b), b != 0 && b != T(-1))
OP(and_sa, 2, true, V r = a; r &= s; return elems<V>(r), return T(a & b), true)
OP(or_sa, 2, true, V r = a; r |= s; return elems<V>(r), return T(a | b), true)
OP(xor_sa, 2, true, V r = a; r ^= s; return elems<V>(r), return T(a ^ b), true)
OP(shl_na, 0, true, V r = a; r <<= T(2); return elems<V>(r), return T(a << 2), true)
OP(shr_na, 0, true, V r = a; r >>= T(2); return elems<V>(r), return T(a >> 2), true)
OP(lsl, 0, true, return elems<V>(dpm::ext::lsl<3>(a)), return T(U(a) << 3), true)
OP(lsr, 0, true, return elems<V>(dpm::ext::lsr<3>(a)), return T(U(a) >> 3), true)
OP(reduce_xor, 4, true, return fill<V>(dpm::reduce(a, std::bit_xor<>{})), return T(a ^ b), true)
OP(reduce_and, 4, true, return fill<V>(dpm::reduce(a, std::bit_and<>{})), return T(a & b), true)
OP(reduce_or, 4, true, return fill<V>(dpm::reduce(a, std::bit_or<>{})), return T(a | b), true)
OP(asl, 0, true, return elems<V>(dpm::ext::asl<3>(a)), return T(U(a) << 3), true)
OP(asr, 0, true, return elems<V>(dpm::ext::asr<3>(a)), return T(a >> 3), true)
using own_ops = std::tuple<o_and_s, o_or_s, o_xor_s, o_rem_s, o_and_sa, o_or_sa, o_xor_sa, o_shl_na, o_shr_na, o_lsl, o_lsr, o_reduce_xor, o_reduce_and, o_reduce_or>;
using signed_ops = std::conditional_t<std::is_signed_v<T>, std::tuple<o_asl, o_asr>, std::tuple<>>;
#endif
OP(min_s, 2, true, return elems<V>(dpm::min(a, s)), return b < a ? b : a, true)
OP(max_s, 2, true, return elems<V>(dpm::max(a, s)), return a < b ? b : a, true)
OP(clamp_s, 2, true, return elems<V>(dpm::clamp(a, std::min(T(1), s), s)), T lo = b < T(1) ? b : T(1); return a < lo ? lo : b < a ? b : a, true)
OP(reduce_hi, 4, true, return fill<V>(dpm::reduce(a, [](T x, T y) { return x < y ? y : x; })), return a < b ? b : a, true)
OP(reduce_lo, 4, true, return fill<V>(dpm::reduce(a, [](T x, T y) { return y < x ? y : x; })), return b < a ? b : a, true)
using all_ops = decltype(std::tuple_cat(std::declval<own_ops>(), std::declval<signed_ops>(), std::declval<std::tuple<o_min_s, o_max_s, o_clamp_s, o_reduce_hi, o_reduce_lo>>()));

constexpr std::size_t tuples(int use) { return use == 0 || use == 4 ? NV : NV * NV; }
// operand vectors: tuple k in lane 0, following tuples in the other lanes (the scalar operand stays); lanes outside the domain take a value inside
template<class O> constexpr void operands(std::size_t k, T *a, T *b, std::size_t n)
{
    const T s = VALS[k % NV];
    for (std::size_t l = 0; l < n; ++l)
    {
        const std::size_t q = O::use == 1 ? (k + l * (NV + 5)) % (NV * NV) : O::use == 2 ? ((k / NV + l * 3) % NV) * NV : (k * (l % 3 + 1) + l * 5) % NV * NV;
        a[l] = VALS[q / NV];
        b[l] = O::use == 2 ? s : VALS[q % NV];
        for (std::size_t m = 0; m < NV && !O::dom(a[l], b[l]); ++m) a[l] = VALS[m];
    }
}
template<class O> constexpr bool usable(std::size_t k) { if (O::use != 2) return true; for (T x : VALS) if (O::dom(x, VALS[k % NV])) return true; return false; }
template<class V, class O> struct table
{
    using R = std::array<T, V::size()>;
    static constexpr std::size_t K = tuples(O::use), N = V::size();
    static constexpr auto make()
    {
        std::array<R, K> t{};
        for (std::size_t k = 0; k < K; ++k)
            if (usable<O>(k))
            {
                T a[N]{}, b[N]{};
                operands<O>(k, a, b, N);
                t[k] = O::vec(V(a, dpm::element_aligned), V(b, dpm::element_aligned), b[0]);
            }
        return t;
    }
    static constexpr auto want()
    {
        std::array<R, K> t{};
        for (std::size_t k = 0; k < K; ++k)
            if (usable<O>(k))
            {
                T a[N]{}, b[N]{};
                operands<O>(k, a, b, N);
                T f = a[0];
                if (O::use == 4) for (std::size_t i = 1; i < N; ++i) f = O::scl(f, a[i]);
                for (std::size_t i = 0; i < N; ++i) t[k][i] = O::use == 4 ? f : std::string_view(O::name) == "scalbn" ? scaled(a[i], int(i) - 1) : O::scl(a[i], b[i]);
            }
        return t;
    }
    static constexpr T scaled(T x, int n) { if constexpr (FP) return std::scalbn(x, n); else return x; }
    static constexpr auto value = make();
    static constexpr auto expect = want();
};
template<class V, class O> MC_NOINLINE static std::array<T, V::size()> live(const T *a, const T *b) { return O::vec(V(a, dpm::element_aligned), V(b, dpm::element_aligned), b[0]); }
static bool same(T g, T w) { if constexpr (FP) return (nan(g) && nan(w)) || (g == w && std::signbit(g) == std::signbit(w)); else return g == w; }
static bool near(T g, T w) { if constexpr (FP) return same(g, w) || std::fabs(g - w) <= std::fabs(w) * (sizeof(T) == 4 ? T(3e-4) : T(1e-10)) + (sizeof(T) == 4 ? T(1e-5) : T(1e-13)); else return g == w; }
template<class V, class O> static void one(const std::string &base)
{
    if (!site(base + O::name)) return;
    constexpr std::size_t N = V::size(), K = tuples(O::use);
    std::uint64_t nt = 0;
    for (std::size_t k = 0; k < K; ++k)
    {
        if (!usable<O>(k)) continue;
        T a[N], b[N];
        operands<O>(k, a, b, N);
        const auto r = live<V, O>(a, b);
        ++ops; ++states;
        for (std::size_t i = 0; i < N; ++i)
        {
            const T w = table<V, O>::expect[k][i], c = table<V, O>::value[k][i];
            count(1, 0); nt += !(w == T(0));
            if (!same(c, w)) fail("a = %s, b = %s lane %zu of %zu: constant evaluation gives %s, expected %s", str(a[i]), str(b[i]), i, N, str(c), str(w));
            if (!(O::exact ? r[i] == w || (nan(r[i]) && nan(w)) : near(r[i], w))) fail("a = %s, b = %s lane %zu of %zu: run time gives %s, expected %s", str(a[i]), str(b[i]), i, N, str(r[i]), str(w));
        }
    }
    count(0, nt);
    sample("%zu operand vectors of %zu lanes", K, N);
}
template<class V> static void all(const std::string &base)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) { (one<V, std::tuple_element_t<I, all_ops>>(base), ...); }(std::make_index_sequence<std::tuple_size_v<all_ops>>{});
}
int main(int argc, char **argv)
{
    init(argc, argv);
    constexpr std::size_t S = 16 / sizeof(T);
    using types = std::conditional_t<MC_PART == 0, abis<ab::scalar, pk<3>>, abis<av<S, 16>, fx<S + 1>, av<3, 16>>>;
    for_abis(types{}, [&]<class A>() { all<dpm::simd<T, A>>(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/"); });
    return finish();
}
