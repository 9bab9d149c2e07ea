// Accuracy and special values of mathematical functions.
// PART 0 powers and roots, 1 sine, cosine, tangent, 2 logarithms, 3 exponential, 4 error and gamma functions, 5 two arguments, 6 inverse trigonometric, 7 hyperbolic, 8 atan2.
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using L = std::numeric_limits<T>;
// references are computed in a wider type, through pointers: the compiler may not replace the calls
using H = std::conditional_t<std::is_same_v<T, float>, double, long double>;
using h1 = H (*volatile)(H);
using h2 = H (*volatile)(H, H);
#define LIB1(NAME) static h1 c_##NAME = static_cast<H (*)(H)>(std::NAME);
#define LIB2(NAME) static h2 c_##NAME = static_cast<H (*)(H, H)>(std::NAME);
static bool measure = false;
constexpr bool F = std::is_same_v<T, float>;

// distance in units of the last place of T at the exact result
static H ulps(T got, H want)
{
    int e;
    std::frexp(want, &e);
    return std::fabs(H(got) - want) / std::ldexp(H(1), std::max(e, L::min_exponent) - L::digits);
}
// A result is right when it is within `ulp` units in the last place of the exact one; or within `cap` units and off by no more than `abs`
// plus what an error of `arg` of the argument of a tangent makes (arg * (1 + tan^2)). Special results (NaN, infinities, zeros, overflow) are exact.
struct Tol { H ulp, cap = 0, abs = 0, arg = 0; };
static double worst, worst_abs, worst_arg;
static std::string worst_at;
static bool close(T got, H want, const Tol &t)
{
    if (want != want) return got != got;
    if (std::isinf(want)) return got == T(want);
    if (want == 0) return got == 0 && std::signbit(got) == std::signbit(want);
    const H lim = std::nextafter(H(L::max()), H(0)) * (1 + H(L::epsilon()) / 2);
    if (std::fabs(want) > lim) return std::signbit(got) == std::signbit(want) && (std::isinf(got) || ulps(std::fabs(got), H(L::max())) <= t.ulp);
    if (std::isinf(got)) return std::fabs(want) >= H(L::max()) * (1 - t.ulp * L::epsilon()) && std::signbit(got) == std::signbit(want);
    if (!(got == got)) return false;
    if (got == 0 && std::signbit(got) != std::signbit(want)) return t.abs > 0;
    if (measure) return true;
    const H u = ulps(got, want);
    return u <= t.ulp || (u <= t.cap && std::fabs(got - want) <= t.abs + t.arg * (1 + want * want) + t.ulp * std::fabs(want) * L::epsilon());
}
static void measured(T got, H w, const std::string &at)
{
    if (!std::isfinite(got) || !(std::fabs(w) <= L::max())) return;
    const double u = double(ulps(got, w)), d = double(std::fabs(got - w)), g = double((std::fabs(got - w) - 3 * std::fabs(w) * L::epsilon()) / (1 + w * w));
    if (u > worst) worst = u, worst_at = at;
    if (u > 4 && d > worst_abs) worst_abs = d;
    if (u > 4 && g > worst_arg) worst_arg = g;
}
static void report(const std::string &name)
{
    if (measure) std::printf("MAXERR %s %s %.3f (abs %.2g eps, arg %.2g) at %s\n", tn<T>(), name.c_str(), worst, worst_abs / L::epsilon(), worst_arg, worst_at.c_str());
    worst = worst_abs = worst_arg = 0;
}
using FULL = abi_list<T>::type;
using DENSE = std::conditional_t<sizeof(T) == 4, abis<av<4, 16>, av<8, 32>, fx<5>>, abis<av<2, 16>, av<4, 32>, fx<3>>>;
static const Grid<T> &the_grid() { static const auto g = Grid<T>::make(tier ? (sizeof(T) == 4 ? 12 : 7) : (sizeof(T) == 4 ? 5 : 1)); return g; }

// ordinary arguments surrounding a value under test
static const T quiet[] = {T(0.75), T(0.40625), T(0.9375), T(0.15625)};
struct Case { T x, y; H want; };
// every case in every lane: next to its neighbours in the list, and alone among ordinary arguments
template<class OP, class A> static void rotate(const std::string &name, const std::vector<Case> &cs, H (*ref)(H, H), const Tol &tol)
{
    if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name)) return;
    constexpr std::size_t n = dpm::simd<T, A>::size();
    static H wq[4];
    for (int i = 0; i < 4; ++i) wq[i] = ref(quiet[i], quiet[(i + 1) % 4]);
    T a[128], b[128], o[128];
    H w[128];
    std::uint64_t calls = 0, nt = 0;
    for (std::size_t j = 0; j < cs.size(); ++j)
        for (std::size_t l = 0; l <= n; ++l)
        {
            for (std::size_t i = 0; i < n; ++i)
            {
                const int q = int((i + j) % 4);
                if (l == n || i == l) { const Case &c = cs[(j + (l == n ? i : 0)) % cs.size()]; a[i] = c.x; b[i] = c.y; w[i] = c.want; }
                else a[i] = quiet[q], b[i] = quiet[(q + 1) % 4], w[i] = wq[q];
            }
            thunk<dpm::simd<T, A>, OP, T, T>(a, b, a, o);
            zero_upper();
            ++calls;
            for (std::size_t i = 0; i < n; ++i)
            {
                if (!close(o[i], w[i], tol)) fail("(%s, %s) lane %zu of %zu: got %s, want about %s", str(a[i]), str(b[i]), i, n, str(o[i]), str(T(w[i])));
                nt += !trivial_case(o[i]);
            }
        }
    ops += calls;
    states += cs.size();
    count(calls * n, nt);
}
template<class OP, class A> static void packed(const std::string &name, const std::vector<Case> &cs, const Tol &tol)
{
    if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name + "/grid")) return;
    constexpr std::size_t n = dpm::simd<T, A>::size();
    T a[128], b[128], o[128];
    std::uint64_t calls = 0, nt = 0;
    for (std::size_t j = 0; j < cs.size(); j += n)
    {
        for (std::size_t i = 0; i < n; ++i) { const Case &c = cs[(j + i) % cs.size()]; a[i] = c.x; b[i] = c.y; }
        thunk<dpm::simd<T, A>, OP, T, T>(a, b, a, o);
        zero_upper();
        ++calls;
        for (std::size_t i = 0; i < n; ++i)
        {
            const H w = cs[(j + i) % cs.size()].want;
            if (!close(o[i], w, tol)) fail("(%s, %s) lane %zu of %zu: got %s, want about %s", str(a[i]), str(b[i]), i, n, str(o[i]), str(T(w)));
            else if (measure) measured(o[i], w, str(a[i]) + std::string(" ") + str(b[i]));
            nt += !trivial_case(o[i]);
        }
        if (j == n * 1000) sample("(%s, %s) -> %s", str(a[0]), str(b[0]), str(o[0]));
    }
    ops += calls;
    states += cs.size();
    count(calls * n, nt);
}
template<class OP, class... As, class... Ds> static void judge(abis<As...>, abis<Ds...>, const std::string &name, const std::vector<Case> &few, const std::vector<Case> &many, H (*ref)(H, H), const Tol &tol)
{
    (rotate<OP, As>(name, few, ref, tol), ...);
    (packed<OP, Ds>(name, many, tol), ...);
    report(name);
}
static bool any(T) { return true; }
// Without DPM_HANDLE_ERRORS results for erroneous (domain, pole and overflow errors) and infinite operands are open; without DPM_PROPAGATE_NAN also those for NaN.
static bool defined([[maybe_unused]] T x, [[maybe_unused]] T y, [[maybe_unused]] H want)
{
#ifndef DPM_HANDLE_ERRORS
    if (std::isinf(x) || std::isinf(y)) return false;
#ifndef DPM_PROPAGATE_NAN
    if (x != x || y != y) return false;
#endif
    if (want != want) return x != x || y != y;
    if (std::fabs(want) > L::max()) return false;
#endif
    return true;
}
// every float
template<class OP, class A> static void all_floats(const std::string &name, H (*ref)(H, H), bool (*dom)(T), const Tol &tol)
{
    for (std::uint32_t c = 0; c < 64; ++c)
    {
        if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name + "/all/" + std::to_string(c))) continue;
        constexpr std::size_t n = dpm::simd<T, A>::size();
        T a[n], o[n];
        std::uint64_t calls = 0, nt = 0;
        for (std::uint32_t k = 0; k < (1u << 26); k += n)
        {
            for (std::size_t i = 0; i < n; ++i) a[i] = T(std::bit_cast<float>((c << 26) | std::uint32_t(k + i)));
            thunk<dpm::simd<T, A>, OP, T, T>(a, a, a, o);
            zero_upper();
            ++calls;
            for (std::size_t i = 0; i < n; ++i)
            {
                if (!dom(a[i])) continue;
                const H w = ref(a[i], a[i]);
                if (!defined(a[i], a[i], w)) continue;
                if (!close(o[i], w, tol)) fail("(%s) lane %zu of %zu: got %s, want about %s", str(a[i]), i, n, str(o[i]), str(T(w)));
                nt += !trivial_case(o[i]);
            }
        }
        ops += calls;
        states += std::uint64_t(calls) * n;
        count(calls * n, nt);
    }
}
// the quick tier thins out the exponents of double: those near 0 and the ends of the range are kept
static bool sparse(T x)
{
    if (tier || sizeof(T) == 4 || !std::isfinite(x) || x == 0) return true;
    const int e = std::ilogb(x);
    return (e > -64 && e < 64) || e < -1000 || e > 1000 || e % 16 == 0;
}
template<class OP> static void one(const std::string &name, H (*ref)(H, H), bool (*dom)(T), const Tol &tol, const std::vector<T> &extra)
{
    static H (*last)(H, H) = nullptr;
    static std::vector<Case> few, many;
    if (ref != last)
    {
        few.clear(), many.clear(), last = ref;
        for (T x : alphabet<T>()) if (dom(x) && defined(x, x, ref(x, x))) few.push_back({x, x, ref(x, x)});
        const auto &g = the_grid();
        for (std::uint64_t k = 0; k < g.size(); ++k) if (const T x = g.at(k); sparse(x) && dom(x) && defined(x, x, ref(x, x))) many.push_back({x, x, ref(x, x)});
        for (T x : extra) if (dom(x) && defined(x, x, ref(x, x))) many.push_back({x, x, ref(x, x)});
    }
    judge<OP>(FULL{}, DENSE{}, name, few, many, ref, tol);
    if constexpr (F) if (tier) all_floats<OP, av<8, 32>>(name, ref, dom, tol);
}
// all pairs of alphabet values; all pairs of a coarser grid
template<class OP> static void two(const std::string &name, H (*ref)(H, H), const Tol &tol)
{
    std::vector<Case> few, many;
    for (T x : alphabet<T>()) for (T y : alphabet<T>()) if (defined(x, y, ref(x, y))) few.push_back({x, y, ref(x, y)});
    std::vector<T> v;
    const int step = tier ? (sizeof(T) == 4 ? 1 : 3) : (sizeof(T) == 4 ? 3 : 23);
    for (int e = L::min_exponent - L::digits; e < L::max_exponent; e += (e > -20 && e < 20) ? 1 : step) for (T m : {T(1), T(1.0625), T(1.25), T(1.4999999), T(1.7320508), T(2) - L::epsilon()}) { v.push_back(std::ldexp(m, e)); v.push_back(-v.back()); }
    for (T x : v) for (T y : v) if (defined(x, y, ref(x, y))) many.push_back({x, y, ref(x, y)});
    judge<OP>(FULL{}, DENSE{}, name, few, many, ref, tol);
}
#define OP1(NAME, ...) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { return __VA_ARGS__; } };
#define OP2(NAME, ...) struct o_##NAME { static constexpr int arity = 2; template<class V> static auto f(const V &x, const V &y) { return __VA_ARGS__; } };
#define REF(NAME, ...) static H r_##NAME(H x, [[maybe_unused]] H y) { return __VA_ARGS__; }
static std::vector<T> extra;
#define FN(NAME, DOM, ...) one<o_##NAME>(#NAME, r_##NAME, DOM, Tol{__VA_ARGS__}, extra);
#define FN2(NAME, ...) two<o_##NAME>(#NAME, r_##NAME, Tol{__VA_ARGS__});
#define SIMPLE2(NAME) LIB2(NAME) OP2(NAME, dpm::NAME(x, y)) REF(NAME, c_##NAME(x, y))
#define SIMPLE(NAME) LIB1(NAME) OP1(NAME, dpm::NAME(x)) REF(NAME, c_##NAME(x))

static bool is_normal(T x) { return !std::isfinite(x) || x == 0 || (std::fabs(x) >= L::min() && std::fabs(x) < 1 / L::min()); }
// a value and its neighbours, with both signs
static void around(T x) { for (T y : {x, std::nextafter(x, T(0)), std::nextafter(x, L::infinity())}) { extra.push_back(y); extra.push_back(-y); } }

#if MC_PART == 0
SIMPLE(sqrt) SIMPLE(cbrt)
OP1(rcp, dpm::ext::rcp(x)) REF(rcp, 1 / x)
OP1(rsqrt, dpm::ext::rsqrt(x)) REF(rsqrt, 1 / c_sqrt(x))
static void run()
{
    FN(sqrt, any, 0.5)
    FN(cbrt, any, 4)
    // instructions approximate the reciprocals of floats to 1.5 * 2^-12
    if (F) { FN(rcp, is_normal, 6144) FN(rsqrt, is_normal, 6144) }
    else { FN(rcp, any, 1) FN(rsqrt, any, 2) }
}
#elif MC_PART == 1
SIMPLE(sin) SIMPLE(cos) SIMPLE(tan)
OP1(sincos_s, ([](const V &v) { V s, c; dpm::ext::sincos(v, s, c); return s; })(x))
OP1(sincos_c, ([](const V &v) { V s, c; dpm::ext::sincos(v, s, c); return c; })(x))
#define TRIG(NAME, REF) one<o_##NAME>(#NAME, r_##REF, any, Tol{4, cap, 0, arg}, extra);
static void run()
{
    // multiples of pi / 4 and thresholds
    const long double q = 0.785398163397448309615660845819875721L;
    for (int k = 1; k < (tier ? 20000 : 2000); ++k) around(T(k * q));
    for (int e = 10; e < (F ? 30 : 60); ++e) for (int i = 0; i < (tier ? 1000 : 40); ++i) around(T(std::ldexp(1.0L, e) * (1 + i / 1000.0L) / q * q));
    for (int k = 1; k < 16; ++k) around(T(k * q / 16));
    for (T x : {T(8192), T(0x1p29), T(0x1p22), T(0x1p51)}) around(x);
    const H cap = L::infinity(), arg = F ? H(1e-10) : H(1e-24L);
    TRIG(sin, sin) TRIG(sincos_s, sin) TRIG(cos, cos) TRIG(sincos_c, cos)
    one<o_tan>("tan", r_tan, any, Tol{F ? H(5) : H(24), cap, 0, arg}, extra);
}
#elif MC_PART == 2
SIMPLE(log) SIMPLE(log2) SIMPLE(log10) SIMPLE(log1p)
static void run()
{
    for (int i = -400; i <= 400; ++i) around(T(1) + T(i) / 1024);
    for (int i = 1; i <= 256; ++i) { around(T(i) / 256); around(T(i) / 64); }
    for (int e = 2; e < L::digits + 3; ++e) { around(std::ldexp(T(1), -e)); around(1 - std::ldexp(T(1), -e)); around(1 + std::ldexp(T(1), -e)); }
    const H cap = F ? H(64) : H(512), eps = 2 * H(L::epsilon());
    FN(log, any, 4, cap, eps) FN(log2, any, 4, F ? cap : H(L::infinity()), eps) FN(log10, any, 4, cap, eps) FN(log1p, any, 4, cap, eps)
}
#elif MC_PART == 3
SIMPLE(exp) SIMPLE(exp2) SIMPLE(expm1)
static void run()
{
    FN(exp, any, 2) FN(exp2, any, 2) FN(expm1, any, 2)
}
#elif MC_PART == 4
SIMPLE(erf) SIMPLE(erfc) SIMPLE(tgamma) SIMPLE(lgamma)
static void run()
{
    FN(erf, any, 2) FN(erfc, any, 4) FN(tgamma, any, 8) FN(lgamma, any, 6)
}
#elif MC_PART == 5
SIMPLE2(hypot)
// (the long double powl is wrong for infinite bases with an exponent of -2^63)
LIB2(pow) static double (*volatile d_pow)(double, double) = static_cast<double (*)(double, double)>(std::pow);
OP2(pow, dpm::pow(x, y)) REF(pow, std::isinf(x) || x == 0 ? H(d_pow(double(x), double(y))) : c_pow(x, y))
static void run()
{
    two<o_hypot>("hypot", r_hypot, Tol{1});
    two<o_pow>("pow", r_pow, Tol{1});
}
#elif MC_PART == 8
SIMPLE2(atan2)
static void run() { two<o_atan2>("atan2", r_atan2, Tol{2}); }
#elif MC_PART == 6
SIMPLE(asin) SIMPLE(acos) SIMPLE(atan)
static void run()
{
    for (T x : {T(0.5), T(0.625), T(0.66), T(0.70710678), T(1), T(1.0e-4), T(1.0e-8), T(2.41421356237309504880), T(0.41421356237309504880), T(0x1p52), T(0x1p23)}) around(x);
    for (int i = 1; i <= 4096; ++i) around(T(i) / 4096);
    for (int e = 2; e < L::digits + 3; ++e) { around(1 - std::ldexp(T(1), -e)); around(1 + std::ldexp(T(1), -e)); }
    FN(asin, any, F ? H(4) : H(2)) FN(acos, any, F ? H(4) : H(2)) FN(atan, any, 2)
}
#elif MC_PART == 7
SIMPLE(sinh) SIMPLE(cosh) SIMPLE(tanh) SIMPLE(asinh) SIMPLE(acosh) SIMPLE(atanh)
static void run()
{
    FN(sinh, any, 4) FN(cosh, any, 4) FN(tanh, any, 4) FN(asinh, any, 4) FN(acosh, any, 4) FN(atanh, any, 4)
}
#endif
int main(int argc, char **argv)
{
    for (int i = 1; i < argc; ++i) if (!std::strcmp(argv[i], "--measure")) measure = true;
    init(argc, argv);
    run();
    return finish();
}
