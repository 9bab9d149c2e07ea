// Decomposing and composing floating-point elements: PART 0 frexp, modf, ilogb, logb; 1 copysign, nextafter, nexttoward, ldexp, scalbn, scalbln; 2 promoting overloads.
#include <climits>
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using L = std::numeric_limits<T>;
#define OP1(NAME, ...) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { __VA_ARGS__; } };
#define OP2(NAME, ...) struct o_##NAME { static constexpr int arity = 2; template<class V> static auto f(const V &a, const V &b) { __VA_ARGS__; } };
#define REF(NAME, R, ...) static R r_##NAME(T a, T b, T) { (void) b; __VA_ARGS__; }
template<class V, class I> using with = dpm::simd<I, typename V::abi_type>;
using FULL = abi_list<T>::type;
using DENSE = std::conditional_t<sizeof(T) == 4, abis<av<4, 16>, av<8, 32>, fx<5>>, abis<av<2, 16>, av<4, 32>, fx<3>>>;
// Without DPM_HANDLE_ERRORS results of erroneous operations (poles, overflow, underflow, ilogb of zero) and of infinite elements are open; without DPM_PROPAGATE_NAN also those for NaN.
template<class R> static bool open([[maybe_unused]] R w, [[maybe_unused]] T x, [[maybe_unused]] T y)
{
#ifndef DPM_HANDLE_ERRORS
    if (std::isinf(x) || std::isinf(y)) return true;
#ifndef DPM_PROPAGATE_NAN
    if (x != x || y != y || w != w) return true;
#endif
    if constexpr (std::is_same_v<R, int>) return w == FP_ILOGB0 && x == 0;
    else return std::isinf(w) || (x != 0 && std::fabs(w) < L::min());
#endif
    return false;
}
template<class R> static bool judge_open(R g, R w, const Tup<T> &t) { return same(g, w) || open(w, t.a, t.b); }
template<class OP, class R, class... As> static void every(abis<As...>, const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool dense = false)
{
    (sweep<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name, dpm::simd<T, As>::size(), OP::arity, &thunk<dpm::simd<T, As>, OP, T, R>, ref, cs, judge_open<R>, dense ? dpm::simd<T, As>::size() : 1), ...);
}
#if MC_PART == 0
OP1(frexp_m, with<V, int> e; return dpm::frexp(x, &e))
OP1(frexp_e, with<V, int> e; e = 77; (void) dpm::frexp(x, &e); return e)
OP1(frexp_back, with<V, int> e; const auto m = dpm::frexp(x, &e); V r; for (std::size_t i = 0; i < V::size(); ++i) r[i] = std::ldexp(T(m[i]), int(e[i])); return r)
OP1(frexp_ref_m, with<V, int> e; return dpm::ext::frexp(x, e))
OP1(frexp_ref_e, with<V, int> e; (void) dpm::ext::frexp(x, e); return e)
OP1(modf_f, V i; return dpm::modf(x, &i))
OP1(modf_i, V i; (void) dpm::modf(x, &i); return i)
OP1(modf_ref_f, V i; return dpm::ext::modf(x, i))
OP1(modf_ref_i, V i; (void) dpm::ext::modf(x, i); return i)
OP1(modf_same, V i = x; return dpm::modf(i, &i) + T(0) * i)
OP1(ilogb, return dpm::ilogb(x))
OP1(logb, return dpm::logb(x))
REF(frexp_m, T, int e; return std::frexp(a, &e))
REF(frexp_e, int, int e; std::frexp(a, &e); return e)
REF(modf_f, T, T i; return std::modf(a, &i))
REF(modf_i, T, T i; std::modf(a, &i); return i)
REF(id, T, return a)
REF(ilogb, int, return std::ilogb(a))
REF(logb, T, return std::logb(a))
template<class OP, class R, class... As> static void grid(abis<As...>, const char *name, ref3<T, R> ref, bool finite_only = false)
{
    const auto g = Grid<T>::make(tier ? (sizeof(T) == 4 ? 14 : 10) : 4);
    (dense<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name + "/grid", dpm::simd<T, As>::size(), &thunk<dpm::simd<T, As>, OP, T, R>, g.size(),
                 [&](std::uint64_t k) { const T x = g.at(k); return finite_only && !std::isfinite(x) ? T(0) : x; }, [&](R got, T x) { return same(got, ref(x, x, x)) || open(ref(x, x, x), x, x); }), ...);
}
static void run()
{
    std::vector<Tup<T>> u, fin;
    for (auto x : alphabet<T>()) { u.push_back({x, x, x}); if (std::isfinite(x)) fin.push_back({x, x, x}); }
#define U(NAME, R, REF_) every<o_##NAME, R>(FULL{}, #NAME, r_##REF_, u); grid<o_##NAME, R>(DENSE{}, #NAME, r_##REF_);
    U(frexp_m, T, frexp_m) U(frexp_ref_m, T, frexp_m) U(frexp_back, T, id)
    every<o_frexp_e, int>(FULL{}, "frexp_e", r_frexp_e, fin); grid<o_frexp_e, int>(DENSE{}, "frexp_e", r_frexp_e, true);
    every<o_frexp_ref_e, int>(FULL{}, "frexp_ref_e", r_frexp_e, fin);
    U(modf_f, T, modf_f) U(modf_i, T, modf_i)
    every<o_modf_ref_f, T>(FULL{}, "modf_ref_f", r_modf_f, u); every<o_modf_ref_i, T>(FULL{}, "modf_ref_i", r_modf_i, u);
    U(ilogb, int, ilogb) U(logb, T, logb)
}
#elif MC_PART == 1
// integer exponents and long double targets do not fit T: tuples carry an index into these tables
static const std::vector<long> &exps()
{
    static std::vector<long> e;
    if (e.empty())
    {
        for (long k : {0, 1, 2, 3, 5, 22, 23, 24, 25, 26, 51, 52, 53, 54, 60, 100, 125, 126, 127, 128, 129, 148, 149, 150, 151, 190, 191, 253, 254, 255, 256, 275, 276, 277, 278, 300, 500, 1000, 1021, 1022, 1023, 1024, 1025, 1073, 1074, 1075, 1076, 1077, 2045, 2046, 2047, 2048,
                       2097, 2098, 2099, 2100, 2101, 2200, 30000, 32767, 32768, 49999, 50000, 50001, 65535, 65536, 1000000, 2147480000, 2147483646, 2147483647})
        {
            e.push_back(k); e.push_back(-k);
        }
        e.push_back(-2147483647 - 1);
    }
    return e;
}
static const std::vector<long> &lexps()
{
    static std::vector<long> e;
    if (e.empty())
    {
        e = exps();
        for (long k : {2147483648L, 2147483649L, 4294967295L, 4294967296L, 4294967297L, 4294967300L, 1L << 40, (1L << 40) + 3, 1L << 62, std::numeric_limits<long>::max()}) { e.push_back(k); e.push_back(-k); }
        e.push_back(std::numeric_limits<long>::min());
    }
    return e;
}
static const std::vector<long double> &targets()
{
    static std::vector<long double> t;
    if (t.empty())
        for (auto x : small_alphabet<T>())
            for (long double y : {(long double) x, std::nextafter((long double) x, HUGE_VALL), std::nextafter((long double) x, -HUGE_VALL)}) t.push_back(y);
    if (t.size() < 4000) { for (long double y : {1e4000L, -1e4000L, 1e-4900L, -1e-4900L}) if (std::find(t.begin(), t.end(), y) == t.end()) t.push_back(y); }
    return t;
}
template<class V, class I, class Tab> static with<V, I> pick(const V &b, const Tab &tab) { with<V, I> e; std::memset(static_cast<void *>(&e), dirt, sizeof e); for (std::size_t i = 0; i < V::size(); ++i) e[i] = static_cast<I>(tab[std::size_t(T(b[i]))]); return e; }
// exponents that fit T
template<class V> static with<V, int> pick_direct(const V &b) { with<V, int> e; std::memset(static_cast<void *>(&e), dirt, sizeof e); for (std::size_t i = 0; i < V::size(); ++i) e[i] = int(T(b[i])); return e; }
OP2(copysign, return dpm::copysign(a, b))
OP2(nextafter, return dpm::nextafter(a, b))
OP2(nexttoward, return dpm::nexttoward(a, pick<V, long double>(b, targets())))
OP2(ldexp, return dpm::ldexp(a, pick<V, int>(b, exps())))
OP2(scalbn, return dpm::scalbn(a, pick<V, int>(b, exps())))
OP2(scalbln, return dpm::scalbln(a, pick<V, long>(b, lexps())))
OP2(scalbn_direct, return dpm::scalbn(a, (pick_direct<V>(b))))
REF(copysign, T, return std::copysign(a, b))
REF(nextafter, T, return std::nextafter(a, b))
REF(nexttoward, T, return std::nexttoward(a, targets()[std::size_t(b)]))
REF(ldexp, T, return std::ldexp(a, int(exps()[std::size_t(b)])))
REF(scalbn, T, return std::scalbn(a, int(exps()[std::size_t(b)])))
REF(scalbln, T, return std::scalbln(a, lexps()[std::size_t(b)]))
REF(scalbn_direct, T, return std::scalbn(a, int(b)))
// scalar second operands
static long se; static T ss;
OP1(ldexp_s, return dpm::ldexp(x, int(se)))
OP1(scalbn_s, return dpm::scalbn(x, int(se)))
OP1(scalbln_s, return dpm::scalbln(x, se))
OP1(copysign_s, return dpm::copysign(x, ss))
REF(ldexp_s, T, return std::ldexp(a, int(se)))
REF(scalbn_s, T, return std::scalbn(a, int(se)))
REF(scalbln_s, T, return std::scalbln(a, se))
REF(copysign_s, T, return std::copysign(a, ss))
static std::vector<Tup<T>> indexed(std::size_t n, bool quick_small = false)
{
    std::vector<Tup<T>> r;
    for (auto x : quick_small ? small_alphabet<T>() : alphabet<T>()) for (std::size_t k = 0; k < n; ++k) r.push_back({x, T(k), x});
    return r;
}
static void run()
{
    std::vector<Tup<T>> u, b;
    const auto al = alphabet<T>();
    for (auto x : al) u.push_back({x, x, x});
    for (auto x : al) for (auto y : al) b.push_back({x, y, x});
    for (auto x : al) for (T y : {std::nextafter(x, L::infinity()), std::nextafter(x, -L::infinity()), -x, x}) b.push_back({x, y, x});
    every<o_copysign, T>(FULL{}, "copysign", r_copysign, b);
    every<o_nextafter, T>(FULL{}, "nextafter", r_nextafter, b);
    every<o_nexttoward, T>(FULL{}, "nexttoward", r_nexttoward, indexed(targets().size(), !tier));
    every<o_ldexp, T>(FULL{}, "ldexp", r_ldexp, indexed(exps().size()));
    every<o_scalbn, T>(FULL{}, "scalbn", r_scalbn, indexed(exps().size()));
    every<o_scalbln, T>(FULL{}, "scalbln", r_scalbln, indexed(lexps().size()));
    // every exponent of x with a few significands, and every change of exponent that crosses a boundary
    {
        constexpr int MB = L::digits - 1, EM = (1 << (int(sizeof(T)) * 8 - 1 - MB)) - 1;
        using U = typename bits_of<T>::type;
        std::vector<Tup<T>> d;
        std::vector<U> xs;
        const U one = 1, full = (one << MB) - 1;
        std::vector<int> ex;
        for (int e = 0; e <= EM; ++e) if (sizeof(T) == 4 || tier || e < 60 || e > EM - 60 || e % 61 == 0 || std::abs(e - EM / 2) < 4) ex.push_back(e);
        for (int e : ex) for (U s : {U(0), U(1), U(one << (MB - 1)), U((one << (MB - 1)) - 1), U((one << (MB - 1)) + 1), full}) xs.push_back((U(e) << MB) | s);
        for (int k = 0; k < MB; ++k) for (U s : {U(one << k), U((one << k) | 1), U((one << k) * 2 - 1)}) xs.push_back(s & full);
        for (auto x : xs)
        {
            const int e = int(x >> MB);
            std::set<int> ns;
            for (int t : {-2 * MB, -MB - 3, -MB - 2, -MB - 1, -MB, -MB + 1, -MB + 2, -MB / 2, -3, -2, -1, 0, 1, 2, EM / 2, EM - 2, EM - 1, EM, EM + 1, EM + MB, 2 * EM}) { ns.insert(t - e); }
            for (int t : {0, 1, -1, EM, -EM, EM + MB, -EM - MB, 2 * EM, -2 * EM, EM + 1, EM + 2, -EM - 1, -EM - 2}) ns.insert(t);
            if (!e) for (int k = 1; k <= MB + 2; ++k) { ns.insert(k); ns.insert(EM + k - 2); ns.insert(-k); }
            for (int n : ns) for (U sg : {U(0), U(one << (sizeof(T) * 8 - 1))}) d.push_back({std::bit_cast<T>(U(x | sg)), T(n), T(0)});
        }
        every<o_scalbn_direct, T>(DENSE{}, "scalbn/grid", r_scalbn_direct, d, true);
    }
    for (long e : lexps())
    {
        se = e;
        if (e == int(e)) { every<o_ldexp_s, T>(FULL{}, "ldexp(scalar)", r_ldexp_s, u); every<o_scalbn_s, T>(FULL{}, "scalbn(scalar)", r_scalbn_s, u); }
        every<o_scalbln_s, T>(FULL{}, "scalbln(scalar)", r_scalbln_s, u);
    }
    for (auto s : al) { ss = s; every<o_copysign_s, T>(FULL{}, "copysign(scalar)", r_copysign_s, u); }
    // nextafter in both directions over the grid
    const auto g = Grid<T>::make(tier ? (sizeof(T) == 4 ? 12 : 8) : 3);
    std::vector<Tup<T>> d;
    for (std::uint64_t k = 0; k < g.size(); ++k) { const T x = g.at(k); d.push_back({x, L::infinity(), x}); d.push_back({x, -L::infinity(), x}); d.push_back({x, T(0), x}); d.push_back({x, -x, x}); }
    every<o_nextafter, T>(DENSE{}, "nextafter/grid", r_nextafter, d, true);
}
#else
template<class O, class A> struct mixed
{
    using V = dpm::simd<T, A>;
    using W = dpm::simd<O, A>;
    using P = double;
    template<class F, class R> MC_NOINLINE static void one(const char *name, F f, R ref)
    {
        if (!site(std::string(tn<T>()) + "," + tn<O>() + "/" + abi_name<A>::get() + "/" + name)) return;
        const auto a = small_alphabet<T>();
        const auto b = small_alphabet<O>();
        const std::size_t m = a.size() * b.size(), N = V::size();
        for (std::size_t k = 0; k < m; ++k)
        {
            V x; W y;
            std::memset(static_cast<void *>(&x), 0xFF, sizeof x); std::memset(static_cast<void *>(&y), 0xA5, sizeof y);
            for (std::size_t i = 0; i < N; ++i) { x[i] = a[(k + i) % m / b.size()]; y[i] = b[(k + i) % b.size()]; }
            const auto r = f(x, y);
            using E = typename std::remove_cvref_t<decltype(r)>::value_type;
            static_assert(std::remove_cvref_t<decltype(r)>::size() == V::size());
            std::uint64_t nt = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                const E w = ref(x[i], y[i]);
                if (!same(E(r[i]), w)) fail("(%s, %s) lane %zu of %zu: got %s, expected %s", str(T(x[i])), str(O(y[i])), i, N, str(E(r[i])), str(w));
                nt += w != 0;
            }
            ++ops;
            count(N, nt);
        }
        states += m;
    }
    // a small exponent (or target) from any value
    static int ex(O y) { return y != y ? 3 : y > O(100) ? 11 : std::is_signed_v<O> && y < -O(99) ? -17 : int(y); }
    template<class I> static dpm::simd<I, A> fromy(const W &y) { dpm::simd<I, A> e; std::memset(static_cast<void *>(&e), 0x5A, sizeof e); for (std::size_t i = 0; i < V::size(); ++i) e[i] = ex(O(y[i])); return e; }
    static void all()
    {
        for (auto s : small_alphabet<O>()) { static O sc; sc = s; one("copysign(scalar)", [](const V &x, const W &) { return dpm::copysign(x, sc); }, [](T x, O) -> P { return std::copysign(P(x), P(sc)); }); }
        one("copysign", [](const V &x, const W &y) { return dpm::copysign(x, y); }, [](T x, O y) -> P { return std::copysign(P(x), P(y)); });
        one("nextafter", [](const V &x, const W &y) { return dpm::nextafter(x, y); }, [](T x, O y) -> P { return std::nextafter(P(x), P(y)); });
    }
    static void unary()
    {
        one("ilogb", [](const V &x, const W &) { return dpm::ilogb(x); }, [](T x, O) { return std::ilogb(P(x)); });
        one("logb", [](const V &x, const W &) { return dpm::logb(x); }, [](T x, O) { return std::logb(P(x)); });
        one("frexp", [](const V &x, const W &) { dpm::simd<int, A> e; return dpm::frexp(x, &e); }, [](T x, O) { int e; return std::frexp(P(x), &e); });
        one("frexp_e", [](const V &x, const W &) { dpm::simd<int, A> e; (void) dpm::frexp(x, &e); return e; }, [](T x, O) { int e; std::frexp(P(x), &e); return e; });
        one("frexp_ref", [](const V &x, const W &) { dpm::simd<int, A> e; return dpm::ext::frexp(x, e); }, [](T x, O) { int e; return std::frexp(P(x), &e); });
        one("ldexp(scalar)", [](const V &x, const W &) { return dpm::ldexp(x, 5); }, [](T x, O) { return std::ldexp(P(x), 5); });
        one("scalbn(scalar)", [](const V &x, const W &) { return dpm::scalbn(x, -5); }, [](T x, O) { return std::scalbn(P(x), -5); });
        one("scalbln(scalar)", [](const V &x, const W &) { return dpm::scalbln(x, 7L); }, [](T x, O) { return std::scalbln(P(x), 7L); });
        one("ldexp", [](const V &x, const W &y) { return dpm::ldexp(x, fromy<int>(y)); }, [](T x, O y) { return std::ldexp(P(x), ex(y)); });
        one("scalbn", [](const V &x, const W &y) { return dpm::scalbn(x, fromy<int>(y)); }, [](T x, O y) { return std::scalbn(P(x), ex(y)); });
        one("scalbln", [](const V &x, const W &y) { return dpm::scalbln(x, fromy<long>(y)); }, [](T x, O y) { return std::scalbln(P(x), ex(y)); });
        one("nexttoward", [](const V &x, const W &y) { return dpm::nexttoward(x, fromy<long double>(y)); }, [](T x, O y) { return std::nexttoward(P(x), (long double) ex(y)); });
    }
};
template<class O, class... As> static void others(abis<As...>) { (mixed<O, As>::all(), ...); }
template<class... As> static void unaries(abis<As...>) { (mixed<T, As>::unary(), ...); }
static void run()
{
    using S = abi_short<T>::type;
#if !MC_FP
    unaries(S{}); others<T>(S{}); others<float>(S{});
#endif
    others<std::int8_t>(S{}); others<std::uint64_t>(S{}); others<std::conditional_t<std::is_same_v<T, float>, double, float>>(S{});
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
