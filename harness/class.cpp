// Classification and quiet comparisons: PART 0 floating-point elements, 1 overloads that promote their arguments.
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using L = std::numeric_limits<T>;
// the mask is judged through its elements and through operations that read it as a whole
template<class M> static M whole(const M &m)
{
    std::size_t n = 0, first = M::size(), last = M::size();
    for (std::size_t i = 0; i < M::size(); ++i) if (m[i]) { ++n; last = i; if (first == M::size()) first = i; }
    if (std::size_t(dpm::reduce_count(m)) != n) fail("reduce_count of the result is %zu, its true elements %zu", std::size_t(dpm::reduce_count(m)), n);
    if (dpm::any_of(m) != (n > 0) || dpm::none_of(m) != (n == 0) || dpm::all_of(m) != (n == M::size()) || dpm::some_of(m) != (n > 0 && n < M::size())) fail("any/none/all/some_of disagree with the %zu true elements of the result", n);
    if (n && (std::size_t(dpm::reduce_min_index(m)) != first || std::size_t(dpm::reduce_max_index(m)) != last)) fail("reduce_min/max_index disagree with the elements of the result");
    M t;
    for (std::size_t i = 0; i < M::size(); ++i) t[i] = bool(m[i]);
    if (!dpm::all_of(t == m) || dpm::any_of(t != m) || dpm::any_of(t ^ m) || !dpm::all_of((!m) ^ t)) fail("the result differs from a mask with the same elements");
    return m;
}
// quiet comparisons raise no floating-point exception for quiet operands
static bool quiet(T x) { return x == x || (bits(x) >> (L::digits - 2) & 1); }
static bool judge_flags = false;
template<class F> static auto flags(F f)
{
    if (!judge_flags) return f();
    std::feclearexcept(FE_ALL_EXCEPT);
    auto r = f();
    if (int e = std::fetestexcept(FE_ALL_EXCEPT)) { fail("floating-point exceptions raised:%s%s", e & FE_INVALID ? " invalid" : "", e & ~FE_INVALID ? " other" : ""); std::feclearexcept(FE_ALL_EXCEPT); }
    return r;
}
#define UN(NAME) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { return whole(dpm::NAME(x)); } }; static bool r_##NAME(T x, T, T) { return std::NAME(x); }
#define BI(NAME) struct o_##NAME { static constexpr int arity = 2; template<class V> static auto f(const V &a, const V &b) { return whole(flags([&] { return dpm::NAME(a, b); })); } }; static bool r_##NAME(T a, T b, T) { return std::NAME(a, b); }
struct o_fpclassify { static constexpr int arity = 1; template<class V> static auto f(const V &x) { return dpm::fpclassify(x); } };
static int r_fpclassify(T x, T, T) { return std::fpclassify(x); }
UN(isnan) UN(isinf) UN(isfinite) UN(isnormal) UN(signbit)
BI(isgreater) BI(isgreaterequal) BI(isless) BI(islessequal) BI(islessgreater) BI(isunordered)
using FULL = abi_list<T>::type;
template<class OP, class R, class... As> static void every(abis<As...>, const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs)
{
    (sweep<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name, dpm::simd<T, As>::size(), OP::arity, &thunk<dpm::simd<T, As>, OP, T, R>, ref, cs), ...);
}
#if MC_PART == 0
using DENSE = std::conditional_t<sizeof(T) == 4, abis<av<4, 16>, av<8, 32>, fx<5>>, abis<av<2, 16>, av<4, 32>, fx<3>>>;
template<class OP, class R, class... As> static void grid(abis<As...>, const char *name, ref3<T, R> ref)
{
    const auto g = Grid<T>::make(tier ? (sizeof(T) == 4 ? 14 : 10) : 4);
    (dense<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name + "/grid", dpm::simd<T, As>::size(), &thunk<dpm::simd<T, As>, OP, T, R>, g.size(),
                 [&](std::uint64_t k) { return g.at(k); }, [&](R got, T x) { return got == ref(x, x, x); }), ...);
}
static void run()
{
    std::vector<Tup<T>> u, b, qb;
    const auto al = alphabet<T>();
    for (auto x : al) { u.push_back({x, x, x}); }
    for (auto x : al) for (auto y : al) { b.push_back({x, y, x}); if (quiet(x) && quiet(y)) qb.push_back(b.back()); }
    for (int k = 0; k < 2; ++k)
    {
        judge_flags = k;
        const auto &cu = u, &cb = k ? qb : b;
#define U1(NAME, R) every<o_##NAME, R>(FULL{}, k ? #NAME "/flags" : #NAME, r_##NAME, cu); if (!k) grid<o_##NAME, R>(DENSE{}, #NAME, r_##NAME);
#define B2(NAME) every<o_##NAME, bool>(FULL{}, k ? #NAME "/flags" : #NAME, r_##NAME, cb);
        if (!k) { U1(isnan, bool) U1(isinf, bool) U1(isfinite, bool) U1(isnormal, bool) U1(signbit, bool) U1(fpclassify, int) }
        B2(isgreater) B2(isgreaterequal) B2(isless) B2(islessequal) B2(islessgreater) B2(isunordered)
    }
}
#else
// one operand of element type T, the other of type O; promoted to double (long double with a long double operand)
template<class O, class A> struct mixed
{
    using V = dpm::simd<T, A>;
    using W = dpm::simd<O, A>;
    template<class F, class R> MC_NOINLINE static void one(const char *name, F f, R ref)
    {
        if (!site(std::string(tn<T>()) + "," + tn<O>() + "/" + abi_name<A>::get() + "/" + name)) return;
        const auto a = small_alphabet<T>();
        const auto b = small_alphabet<O>();
        const std::size_t m = a.size() * b.size(), N = V::size();
        for (std::size_t k = 0; k < m; ++k)
        {
            V x; W y;
            std::memset(static_cast<void *>(&x), 0xFF, sizeof x); std::memset(static_cast<void *>(&y), 0xA5, sizeof y);
            for (std::size_t i = 0; i < N; ++i) { x[i] = a[(k + i) % m / b.size()]; y[i] = b[(k + i) % b.size()]; }
            const auto r = f(x, y);
            static_assert(std::remove_cvref_t<decltype(r)>::size() == V::size());
            std::uint64_t nt = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                const auto w = ref(x[i], y[i]);
                if (r[i] != w) fail("(%s, %s) lane %zu of %zu: got %d, expected %d", str(T(x[i])), str(O(y[i])), i, N, int(r[i]), int(w));
                nt += w != 0;
            }
            ++ops;
            count(N, nt);
        }
        states += m;
    }
    static void all()
    {
#define M2(NAME) one(#NAME, [](const V &x, const W &y) { return whole(dpm::NAME(x, y)); }, [](T x, O y) { return std::NAME(P(x), P(y)); });
        using P = std::conditional_t<std::is_same_v<T, long double> || std::is_same_v<O, long double>, long double, double>;
        M2(isgreater) M2(isgreaterequal) M2(isless) M2(islessequal) M2(islessgreater) M2(isunordered)
    }
    static void unary()
    {
#define M1(NAME) one(#NAME, [](const V &x, const W &) { return whole(dpm::NAME(x)); }, [](T x, O) { return std::NAME(P(x)); });
        using P = double;
        M1(isnan) M1(isinf) M1(isfinite) M1(isnormal) M1(signbit)
        one("fpclassify", [](const V &x, const W &) { return dpm::fpclassify(x); }, [](T x, O) { return std::fpclassify(P(x)); });
    }
};
template<class O, class... As> static void others(abis<As...>) { (mixed<O, As>::all(), ...); }
template<class... As> static void unaries(abis<As...>) { (mixed<T, As>::unary(), ...); }
static void run()
{
    using S = abi_short<T>::type;
#if !MC_FP
    unaries(S{}); others<T>(S{});
#endif
    others<double>(S{}); others<std::int8_t>(S{}); others<std::uint64_t>(S{});
#if !MC_FP
    others<float>(S{});
#endif
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
