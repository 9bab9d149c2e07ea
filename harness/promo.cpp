// Mathematical functions of integers and of mixed types promote their operands to double.
// PART 0 one argument, 1 two arguments of different types, 2 floating-point manipulation and classification of integers.
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using SHORT = abi_short<T>::type;
static double volatile sink;
// within a few units in the last place of what the standard library computes; reductions and table lookups may lose a little absolutely
static bool near(double g, double w, double ulp)
{
    if (w != w) return g != g;
    if (std::isinf(w) || w == 0) return g == w;
    const double d = std::fabs(g - w);
    return d <= ulp * std::fabs(w) * 0x1p-52 || d <= 0x1p-51 * (1 + w * w) * 0x1p-20;
}
// ordinary values of the type: those whose results do not sit at the edge of a function's domain by rounding
template<class E> static std::vector<E> values()
{
    std::vector<E> v = {E(1), E(2), E(0), E(3), E(5), E(7), E(10), E(13), E(25), E(64), E(100), E(127)};
    for (E x : alphabet<E>()) if (std::is_integral_v<E> || (x == x && std::fabs((long double) x) < 1e18L && (x == 0 || std::fabs((long double) x) > 1e-30L))) push_unique(v, x);
    return v;
}
template<class A, class F, class R> MC_NOINLINE static void one(const std::string &name, F f, R ref, double ulp = 0)
{
    using V = dpm::simd<T, A>;
    if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name)) return;
    const auto v = values<T>();
    constexpr std::size_t n = V::size();
    for (std::size_t k = 0; k < v.size(); ++k)
    {
        V x;
        std::memset(static_cast<void *>(&x), 0xA5, sizeof x);
        for (std::size_t i = 0; i < n; ++i) x[i] = v[(k + i) % v.size()];
        const auto r = f(x);
        zero_upper();
        using E = typename std::remove_cvref_t<decltype(r)>::value_type;
        static_assert(std::is_same_v<E, std::remove_cvref_t<decltype(ref(T{}))>>);
        static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(r)>::abi_type, A> || std::is_same_v<E, bool>);
        static_assert(std::remove_cvref_t<decltype(r)>::size() == n);
        std::uint64_t nt = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            const E g = r[i], w = ref(v[(k + i) % v.size()]);
            bool ok;
            if constexpr (std::is_floating_point_v<E>) ok = ulp > 0 ? near(g, w, ulp) : same(g, w); else ok = g == w;
            if (!ok) fail("(%s) lane %zu of %zu: got %s, expected %s", str(T(x[i])), i, n, str(g), str(w));
            nt += g != E(0);
        }
        ++ops;
        count(n, nt);
    }
    states += v.size();
}
template<class O, class A, class F, class R> MC_NOINLINE static void pair(const std::string &name, F f, R ref, double ulp = 0)
{
    using V = dpm::simd<T, A>;
    using W = dpm::simd<O, A>;
    if (!site(std::string(tn<T>()) + "," + tn<O>() + "/" + abi_name<A>::get() + "/" + name)) return;
    const auto v = values<T>();
    const auto u = values<O>();
    const std::size_t m = v.size() * u.size();
    constexpr std::size_t n = V::size();
    for (std::size_t k = 0; k < m; ++k)
    {
        V x;
        W y;
        std::memset(static_cast<void *>(&x), 0xA5, sizeof x), std::memset(static_cast<void *>(&y), 0x5A, sizeof y);
        for (std::size_t i = 0; i < n; ++i) x[i] = v[(k + i) % m / u.size()], y[i] = u[(k + i) % u.size()];
        const auto r = f(x, y);
        zero_upper();
        using E = typename std::remove_cvref_t<decltype(r)>::value_type;
        static_assert(std::is_same_v<E, std::remove_cvref_t<decltype(ref(T{}, O{}))>>);
        static_assert(std::remove_cvref_t<decltype(r)>::size() == n);
        std::uint64_t nt = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            const E g = r[i], w = ref(T(x[i]), O(y[i]));
            bool ok;
            if constexpr (std::is_floating_point_v<E>) ok = ulp > 0 ? near(g, w, ulp) : same(g, w); else ok = g == w;
            if (!ok) fail("(%s, %s) lane %zu of %zu: got %s, expected %s", str(T(x[i])), str(O(y[i])), i, n, str(g), str(w));
            nt += g != E(0);
        }
        ++ops;
        count(n, nt);
    }
    states += m;
}
#if MC_PART == 0
template<class A> static void all()
{
#define F1(NAME, ULP) one<A>(#NAME, [](const auto &x) { return dpm::NAME(x); }, [](T x) -> double { return std::NAME(double(x)); }, ULP);
    F1(sqrt, 1) F1(cbrt, 8) F1(exp, 4) F1(exp2, 4) F1(expm1, 4) F1(log, 512) F1(log2, 512) F1(log10, 512) F1(log1p, 512)
    F1(sin, 16) F1(cos, 16) F1(tan, 64) F1(asin, 8) F1(acos, 8) F1(atan, 8) F1(sinh, 8) F1(cosh, 8) F1(tanh, 8) F1(asinh, 8) F1(acosh, 8) F1(atanh, 8)
    F1(erf, 8) F1(erfc, 8) F1(tgamma, 32) F1(lgamma, 32)
    one<A>("rcp", [](const auto &x) { return dpm::ext::rcp(x); }, [](T x) -> double { return 1 / double(x); }, 4);
    one<A>("rsqrt", [](const auto &x) { return dpm::ext::rsqrt(x); }, [](T x) -> double { return 1 / std::sqrt(double(x)); }, 4);
}
template<class... As> static void every(abis<As...>) { (all<As>(), ...); }
static void run() { every(SHORT{}); }
#elif MC_PART == 1
template<class O, class A> static void all()
{
#define F2(NAME, ULP) pair<O, A>(#NAME, [](const auto &x, const auto &y) { return dpm::NAME(x, y); }, [](T x, O y) -> double { return std::NAME(double(x), double(y)); }, ULP);
#define C2(NAME) pair<O, A>(#NAME, [](const auto &x, const auto &y) { return dpm::NAME(x, y); }, [](T x, O y) -> bool { return std::NAME(double(x), double(y)); });
    F2(hypot, 4) F2(pow, 4) F2(atan2, 8) F2(copysign, 0) F2(nextafter, 0)
    for (auto s : values<O>())
    {
        static O c;
        c = s;
        one<A>("pow(scalar)", [](const auto &x) { return dpm::pow(x, c); }, [](T x) -> double { return std::pow(double(x), double(c)); }, 4);
        one<A>("copysign(scalar)", [](const auto &x) { return dpm::copysign(x, c); }, [](T x) -> double { return std::copysign(double(x), double(c)); });
    }
    C2(isgreater) C2(isgreaterequal) C2(isless) C2(islessequal) C2(islessgreater) C2(isunordered)
}
template<class O, class... As> static void others(abis<As...>) { (all<O, As>(), ...); }
static void run()
{
#if !MC_FP
    others<T>(SHORT{});
    others<float>(SHORT{});
#endif
    others<std::int8_t>(SHORT{});
    others<std::uint64_t>(SHORT{});
    others<std::conditional_t<std::is_same_v<T, float>, double, float>>(SHORT{});
}
#else
template<class A> static void all()
{
    using I = dpm::simd<int, A>;
#define C1(NAME, R) one<A>(#NAME, [](const auto &x) { return dpm::NAME(x); }, [](T x) -> R { return std::NAME(double(x)); });
    C1(ilogb, int) C1(logb, double) C1(fpclassify, int) C1(isfinite, bool) C1(isinf, bool) C1(isnan, bool) C1(isnormal, bool) C1(signbit, bool)
    one<A>("frexp", [](const auto &x) { I e; return dpm::frexp(x, &e); }, [](T x) -> double { int e; return std::frexp(double(x), &e); });
    one<A>("frexp_e", [](const auto &x) { I e; (void) dpm::frexp(x, &e); return e; }, [](T x) -> int { int e; (void) std::frexp(double(x), &e); return e; });
    one<A>("ext::frexp", [](const auto &x) { I e; return dpm::ext::frexp(x, e); }, [](T x) -> double { int e; return std::frexp(double(x), &e); });
    one<A>("ext::frexp_e", [](const auto &x) { I e; (void) dpm::ext::frexp(x, e); return e; }, [](T x) -> int { int e; (void) std::frexp(double(x), &e); return e; });
    for (int s : {0, 1, -1, 13, -1000, 1100, 960})
    {
        static int c;
        c = s;
        one<A>("ldexp(int)", [](const auto &x) { return dpm::ldexp(x, c); }, [](T x) -> double { return std::ldexp(double(x), c); });
        one<A>("scalbn(int)", [](const auto &x) { return dpm::scalbn(x, c); }, [](T x) -> double { return std::ldexp(double(x), c); });
        one<A>("scalbln(long)", [](const auto &x) { return dpm::scalbln(x, long(c)); }, [](T x) -> double { return std::ldexp(double(x), c); });
        one<A>("ldexp", [](const auto &x) { return dpm::ldexp(x, I(c)); }, [](T x) -> double { return std::ldexp(double(x), c); });
        one<A>("scalbn", [](const auto &x) { return dpm::scalbn(x, I(c)); }, [](T x) -> double { return std::ldexp(double(x), c); });
        one<A>("scalbln", [](const auto &x) { return dpm::scalbln(x, dpm::simd<long, A>(long(c))); }, [](T x) -> double { return std::ldexp(double(x), c); });
    }
}
template<class... As> static void every(abis<As...>) { (all<As>(), ...); }
static void run() { every(SHORT{}); }
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
