// Basic numeric functions: PART 0 one and two operands, 1 fused and interpolating functions, 2 promoting overloads, 3 absolute value of integers.
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using L = std::numeric_limits<T>;
#define OP1(NAME, ...) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { __VA_ARGS__; } };
#define OP2(NAME, ...) struct o_##NAME { static constexpr int arity = 2; template<class V> static auto f(const V &a, const V &b) { __VA_ARGS__; } };
#define OP3(NAME, ...) struct o_##NAME { static constexpr int arity = 3; template<class V> static auto f(const V &a, const V &b, const V &c) { __VA_ARGS__; } };
#define REF(NAME, R, ...) static R r_##NAME(T a, T b, T c) { (void) b; (void) c; __VA_ARGS__; }
template<class V, class I> using with = dpm::simd<I, typename V::abi_type>;
using FULL = abi_list<T>::type;
template<class OP, class R, class... As> static void every(abis<As...>, const std::string &name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool (*judge)(R, R, const Tup<T> &) = judge_same<T, R>, bool dense = false)
{
    (sweep<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name, dpm::simd<T, As>::size(), OP::arity, &thunk<dpm::simd<T, As>, OP, T, R>, ref, cs, judge, dense ? dpm::simd<T, As>::size() : 1), ...);
}
// which of two equal zeros a minimum or maximum returns is open
template<class R> static bool judge_zero(R g, R w, const Tup<T> &) { return same(g, w) || (g == 0 && w == 0); }
#if MC_FP
using F2 = T (*volatile)(T, T);
static F2 c_fmod = static_cast<T (*)(T, T)>(std::fmod), c_remainder = static_cast<T (*)(T, T)>(std::remainder), c_fdim = static_cast<T (*)(T, T)>(std::fdim);
#endif
#if MC_PART == 0
OP1(abs, return dpm::abs(x))
OP1(fabs, return dpm::fabs(x))
OP2(fmax, return dpm::fmax(a, b))
OP2(fmin, return dpm::fmin(a, b))
OP2(fdim, return dpm::fdim(a, b))
OP2(fmod, return dpm::fmod(a, b))
OP2(remainder, return dpm::remainder(a, b))
OP2(remquo, with<V, int> q; return dpm::remquo(a, b, &q))
OP2(remquo_q, with<V, int> q; q = 99; (void) dpm::remquo(a, b, &q); return q)
OP2(remquo_ref, with<V, int> q; return dpm::ext::remquo(a, b, q))
OP2(remquo_ref_q, with<V, int> q; q = 99; (void) dpm::ext::remquo(a, b, q); return q)
REF(abs, T, return std::fabs(a))
REF(fmax, T, return a != a ? b : b != b ? a : a < b ? b : a)
REF(fmin, T, return a != a ? b : b != b ? a : b < a ? b : a)
REF(fdim, T, return a != a || b != b ? L::quiet_NaN() : a > b ? a - b : T(0))
REF(fmod, T, return c_fmod(a, b))
REF(remainder, T, return c_remainder(a, b))
REF(remquo_q, int, int q; return std::isfinite(std::remquo(a, b, &q)) ? q : 0)
// the sign of the quotient and its three lowest bits; open where there is no quotient
static bool judge_quo(int g, int w, const Tup<T> &t)
{
    const T r = c_remainder(t.a, t.b);
    if (r != r) return true;
    return (g & 7) == (w & 7) && (std::abs(g) & 7) == (std::abs(w) & 7) && (w == 0 || g == 0 || (g < 0) == (w < 0));
}
static T ss;
OP1(fmax_s, return dpm::fmax(x, ss)) REF(fmax_s, T, return r_fmax(a, ss, a))
OP1(fmin_s, return dpm::fmin(x, ss)) REF(fmin_s, T, return r_fmin(a, ss, a))
OP1(fdim_s, return dpm::fdim(x, ss)) REF(fdim_s, T, return r_fdim(a, ss, a))
OP1(fmod_s, return dpm::fmod(x, ss)) REF(fmod_s, T, return c_fmod(a, ss))
OP1(remainder_s, return dpm::remainder(x, ss)) REF(remainder_s, T, return c_remainder(a, ss))
template<class A> static void nan_()
{
    using V = dpm::simd<T, A>;
    if (!site(std::string(tn<T>()) + "/nan/" + abi_name<A>::get())) return;
    for (const char *t : {"", "1", "2", "123456", "0x7", "0x3fffff", "0x7ffffffffffff", "077", "abc", "-1", "0x", "4194304"})
    {
        T w;
        if constexpr (std::is_same_v<T, float>) w = std::nanf(t); else w = std::nan(t);
        const V x = dpm::ext::nan<T, A>(t);
        ++ops; ++states;
        for (std::size_t i = 0; i < V::size(); ++i) if (bits(T(x[i])) != bits(w)) fail("nan(\"%s\") lane %zu: bits %llx, expected %llx", t, i, (unsigned long long) bits(T(x[i])), (unsigned long long) bits(w));
        count(V::size(), V::size());
    }
}
template<class... As> static void nans(abis<As...>) { (nan_<As>(), ...); }
static void run()
{
    nans(FULL{});
    std::vector<Tup<T>> u, b, nb;
    const auto al = alphabet<T>();
    for (auto x : al) u.push_back({x, x, x});
    for (auto x : al) for (auto y : al) b.push_back({x, y, x});
    for (auto x : al) for (T y : {std::nextafter(x, L::infinity()), std::nextafter(x, -L::infinity()), std::nextafter(-x, T(0))}) b.push_back({x, y, x});
    std::vector<T> v = al;
    if (tier) for (int e = L::min_exponent; e < L::max_exponent; e += 7) for (T m : {T(1), T(1.37), T(-1.9)}) push_unique(v, std::ldexp(m, e));
    if (tier) { b.clear(); for (auto x : v) for (auto y : v) b.push_back({x, y, x}); }
    nb = b;
    // small quotients, halfway cases included
    for (T y : {T(1), T(0.75), T(3), T(-2.5), T(1e-3), L::min(), L::denorm_min() * 2})
        for (int k = -20; k <= 20; ++k) for (T q : {T(0), T(0.25), T(0.5), T(0.75)}) { const T x = (T(k) + q) * y; nb.push_back({x, y, x}); nb.push_back({std::nextafter(x, L::infinity()), y, x}); nb.push_back({std::nextafter(x, -L::infinity()), y, x}); }
    every<o_abs, T>(FULL{}, "abs", r_abs, u); every<o_fabs, T>(FULL{}, "fabs", r_abs, u);
    every<o_fmax, T>(FULL{}, "fmax", r_fmax, b, judge_zero<T>); every<o_fmin, T>(FULL{}, "fmin", r_fmin, b, judge_zero<T>);
    every<o_fdim, T>(FULL{}, "fdim", r_fdim, b);
    every<o_fmod, T>(FULL{}, "fmod", r_fmod, nb); every<o_remainder, T>(FULL{}, "remainder", r_remainder, nb);
    every<o_remquo, T>(FULL{}, "remquo", r_remainder, nb); every<o_remquo_q, int>(FULL{}, "remquo_q", r_remquo_q, nb, judge_quo);
    every<o_remquo_ref, T>(FULL{}, "remquo_ref", r_remainder, nb); every<o_remquo_ref_q, int>(FULL{}, "remquo_ref_q", r_remquo_q, nb, judge_quo);
    for (auto s : al)
    {
        ss = s;
        every<o_fmax_s, T>(FULL{}, "fmax(scalar)", r_fmax_s, u, judge_zero<T>); every<o_fmin_s, T>(FULL{}, "fmin(scalar)", r_fmin_s, u, judge_zero<T>);
        every<o_fdim_s, T>(FULL{}, "fdim(scalar)", r_fdim_s, u); every<o_fmod_s, T>(FULL{}, "fmod(scalar)", r_fmod_s, u); every<o_remainder_s, T>(FULL{}, "remainder(scalar)", r_remainder_s, u);
    }
}
#elif MC_PART == 1
using F3 = T (*volatile)(T, T, T);
static F3 c_fma = static_cast<T (*)(T, T, T)>(std::fma);
OP3(fmadd, return dpm::ext::fmadd(a, b, c))
OP3(fmsub, return dpm::ext::fmsub(a, b, c))
OP3(fnmadd, return dpm::ext::fnmadd(a, b, c))
OP3(fnmsub, return dpm::ext::fnmsub(a, b, c))
OP3(fma, return dpm::fma(a, b, c))
OP3(lerp, return dpm::lerp(a, b, c))
static T ss;
OP2(lerp_s, return dpm::lerp(a, b, ss))
REF(fmadd, T, return c_fma(a, b, c))
REF(fmsub, T, return c_fma(a, b, -c))
REF(fnmadd, T, return c_fma(-a, b, c))
REF(fnmsub, T, return c_fma(-a, b, -c))
REF(lerp, T, (void) a; return T(1))
// a product rounded before the addition, or not
template<int S1, int S2> static bool judge_fma(T g, T w, const Tup<T> &t)
{
    if (same(g, w)) return true;
    volatile T p = t.a * t.b;
    p = S1 < 0 ? -p : p;
    volatile T r = S2 < 0 ? p - t.c : p + t.c;
    return same(g, T(r));
}
// within a few roundings of the exact a + f * (b - a)
static bool close(T g, T a, T b, T f)
{
    if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(f)) return true;
    const long double x = (long double) a + (long double) f * ((long double) b - a);
    const long double m = std::fabs((long double) a) + std::fabs((long double) f) * (std::fabs((long double) a) + std::fabs((long double) b));
    if (m > (long double) L::max() / 4 || std::fabs((long double) b - a) > (long double) L::max()) return true;
    return g == g && std::fabs((long double) g - x) <= 3 * (long double) L::epsilon() * m + 3 * (long double) L::denorm_min();
}
static bool judge_lerp(T g, T, const Tup<T> &t) { return close(g, t.a, t.b, t.c); }
static bool judge_lerp_s(T g, T, const Tup<T> &t) { return close(g, t.a, t.b, ss); }
static void run()
{
    std::vector<Tup<T>> c, l, p;
    const auto al = alphabet<T>();
    auto sm = small_alphabet<T>();
    for (T x : {T(1) + L::epsilon(), T(1) - L::epsilon(), T(-1) + L::epsilon(), T(0.1), T(1) / 3, T(-1e-10)}) push_unique(sm, x);
    if (tier) sm = al;
    for (auto x : sm) for (auto y : sm) for (auto z : sm) c.push_back({x, y, z});
    // cancellation of the product against the addend
    for (auto x : al) for (auto y : al) { const T q = x * y; for (T z : {q, -q, std::nextafter(q, T(0)), -std::nextafter(q, T(0))}) c.push_back({x, y, z}); }
    const std::vector<T> fs = {T(0), T(1), T(0.5), T(0.25), T(-1), T(2), T(0.1), T(1) - L::epsilon(), T(3.7), T(1e-10), -T(0)};
    for (auto x : al) for (auto y : al) { p.push_back({x, y, x}); for (auto f : fs) l.push_back({x, y, f}); }
    every<o_fmadd, T>(FULL{}, "fmadd", r_fmadd, c, judge_fma<1, 1>); every<o_fma, T>(FULL{}, "fma", r_fmadd, c, judge_fma<1, 1>);
    every<o_fmsub, T>(FULL{}, "fmsub", r_fmsub, c, judge_fma<1, -1>);
    every<o_fnmadd, T>(FULL{}, "fnmadd", r_fnmadd, c, judge_fma<-1, 1>); every<o_fnmsub, T>(FULL{}, "fnmsub", r_fnmsub, c, judge_fma<-1, -1>);
    every<o_lerp, T>(FULL{}, "lerp", r_lerp, l, judge_lerp);
    for (auto f : fs) { ss = f; every<o_lerp_s, T>(FULL{}, "lerp(scalar)", r_lerp, p, judge_lerp_s); }
}
#elif MC_PART == 2
template<class O, class A> struct mixed
{
    using V = dpm::simd<T, A>;
    using W = dpm::simd<O, A>;
    using P = std::conditional_t<std::is_same_v<O, long double>, long double, double>;
    template<class F, class R> MC_NOINLINE static void one(const char *name, F f, R ref)
    {
        if (!site(std::string(tn<T>()) + "," + tn<O>() + "/" + abi_name<A>::get() + "/" + name)) return;
        const auto a = small_alphabet<T>();
        const auto b = small_alphabet<O>();
        const std::size_t m = a.size() * b.size(), N = V::size();
        for (std::size_t k = 0; k < m; ++k)
        {
            V x; W y;
            std::memset(static_cast<void *>(&x), 0xFF, sizeof x); std::memset(static_cast<void *>(&y), 0xA5, sizeof y);
            for (std::size_t i = 0; i < N; ++i) { x[i] = a[(k + i) % m / b.size()]; y[i] = b[(k + i) % b.size()]; }
            const auto r = f(x, y);
            using E = typename std::remove_cvref_t<decltype(r)>::value_type;
            static_assert(std::is_same_v<E, decltype(ref(T{}, O{}))>);
            static_assert(std::remove_cvref_t<decltype(r)>::size() == V::size());
            std::uint64_t nt = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                const E w = ref(x[i], y[i]);
                if (!same(E(r[i]), w) && !(E(r[i]) == 0 && w == 0)) fail("(%s, %s) lane %zu of %zu: got %s, expected %s", str(T(x[i])), str(O(y[i])), i, N, str(E(r[i])), str(w));
                nt += w != 0;
            }
            ++ops;
            count(N, nt);
        }
        states += m;
    }
    static P fma_(P a, P b, P c) { return a * b + c; }
    static void all()
    {
        static O sc;
#define M2(NAME) one(#NAME, [](const V &x, const W &y) { return dpm::NAME(x, y); }, [](T x, O y) -> P { return std::NAME(P(x), P(y)); }); \
        for (auto s : small_alphabet<O>()) { sc = s; one(#NAME "(scalar)", [](const V &x, const W &) { return dpm::NAME(x, sc); }, [](T x, O) -> P { return std::NAME(P(x), P(sc)); }); }
        M2(fmod) M2(remainder) M2(fmax) M2(fmin) M2(fdim)
        one("remquo", [](const V &x, const W &y) { dpm::simd<int, A> q; return dpm::remquo(x, y, &q); }, [](T x, O y) -> P { return std::remainder(P(x), P(y)); });
        one("remquo_ref", [](const V &x, const W &y) { dpm::simd<int, A> q; return dpm::ext::remquo(x, y, q); }, [](T x, O y) -> P { return std::remainder(P(x), P(y)); });
        // exact for these operands
        one("lerp", [](const V &x, const W &y) { return dpm::lerp(V(T(3)), pick(y), V(T(2))); }, [](T, O y) -> P { return P(3) + P(2) * (P(pick(y)) - P(3)); });
        one("lerp(scalar)", [](const V &x, const W &y) { return dpm::lerp(V(T(3)), pick(y), O(2)); }, [](T, O y) -> P { return P(3) + P(2) * (P(pick(y)) - P(3)); });
#define M3(NAME, S1, S2) one(#NAME, [](const V &x, const W &y) { return dpm::NAME(pick(x), pick(y), V(T(5))); }, [](T x, O y) -> P { return S1 (P(pick(x)) * P(pick(y))) S2 P(5); });
        if constexpr (!std::is_same_v<T, O>) // three operands of one integer type are computed in that type
        {
        M3(ext::fmadd, +, +) M3(ext::fmsub, +, -) M3(ext::fnmadd, -, +) M3(ext::fnmsub, -, -) M3(fma, +, +)
        }
    }
    // small values, exact under every operation
    template<class E> requires std::is_arithmetic_v<E> static E pick(E y) { return y > E(0) && y < E(64) ? E(int(y)) : E(7); }
    template<class E> static dpm::simd<E, A> pick(const dpm::simd<E, A> &y) { dpm::simd<E, A> e; std::memset(static_cast<void *>(&e), 0x5A, sizeof e); for (std::size_t i = 0; i < V::size(); ++i) e[i] = pick(E(y[i])); return e; }
};
template<class O, class... As> static void others(abis<As...>) { (mixed<O, As>::all(), ...); }
static void run()
{
    using S = abi_short<T>::type;
#if !MC_FP
    others<T>(S{}); others<float>(S{});
#endif
    others<std::int8_t>(S{}); others<std::uint64_t>(S{}); others<std::conditional_t<std::is_same_v<T, float>, double, float>>(S{});
}
#else
OP1(abs, return dpm::abs(x))
REF(abs, T, return static_cast<T>(a < 0 ? -a : a))
static void run()
{
    std::vector<Tup<T>> u;
    for (auto x : alphabet<T>()) if (sizeof(T) < sizeof(int) || x != L::min()) u.push_back({x, x, x});
    every<o_abs, T>(FULL{}, "abs", r_abs, u);
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
