// Rounding to integral values and to integer types: PART 0 floating-point results, 1 integer results.
#include "fpgrid.hpp"
using namespace mc;
using T = MC_T;
using L = std::numeric_limits<T>;
#define OP1(NAME, ...) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { return __VA_ARGS__; } };
#define REF(NAME, R, ...) static R r_##NAME(T x, T, T) { return __VA_ARGS__; }
// the references call the C library through pointers: the compiler may not expand them inline with a fixed rounding mode in mind
template<class R> using F1 = R (*volatile)(T);
#define LIBM(NAME, R) static F1<R> c_##NAME = static_cast<R (*)(T)>(std::NAME);
LIBM(ceil, T) LIBM(floor, T) LIBM(trunc, T) LIBM(round, T) LIBM(rint, T) LIBM(nearbyint, T) LIBM(lround, long) LIBM(llround, long long) LIBM(lrint, long) LIBM(llrint, long long)
// outside round-to-nearest the sign of a zero result is left to the compiler's own expansion of std:: functions
static bool zero_sign = true;
template<class R> static bool judge(R g, R w, const Tup<T> &) { return same(g, w) || (!zero_sign && g == R(0) && w == R(0)); }
using FULL = abi_list<T>::type;
static std::vector<T> values()
{
    std::vector<T> v = fp_alphabet<T>();
    for (int e = -3; e < 66; ++e)
        for (T d : {T(0), T(0.25), T(0.5), T(0.75), T(1), T(1.5), T(2.5), T(3.5)})
            for (T b : {std::ldexp(T(1), e), std::ldexp(T(1), e) * T(1.5)})
                for (T y : {b + d, b - d, std::nextafter(b + d, L::infinity()), std::nextafter(b + d, T(0)), std::nextafter(b - d, T(0))}) { push_unique(v, y); push_unique(v, -y); }
    return v;
}
static const char *mode_name[] = {"nearest", "down", "up", "zero"};
static const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};

template<class OP, class R, class... As> static void every(abis<As...>, const std::string &name, ref3<T, R> ref, const std::vector<Tup<T>> &cs)
{
    (sweep<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name, dpm::simd<T, As>::size(), 1, &thunk<dpm::simd<T, As>, OP, T, R>, ref, cs, judge<R>), ...);
}
using DENSE = std::conditional_t<sizeof(T) == 4, abis<av<4, 16>, av<8, 32>>, abis<av<2, 16>, av<4, 32>>>;
template<class OP, class R, class... As> static void grid(abis<As...>, const std::string &name, ref3<T, R> ref, bool (*dom)(T))
{
    const auto g = Grid<T>::make(tier ? (sizeof(T) == 4 ? 14 : 10) : sizeof(T) == 4 ? 6 : 2);
    (dense<T, R>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name + "/grid", dpm::simd<T, As>::size(), &thunk<dpm::simd<T, As>, OP, T, R>, g.size(),
                 [&](std::uint64_t k) { const T x = g.at(k); return dom(x) ? x : T(0); }, [&](R got, T x) { return judge<R>(got, ref(x, x, x), {}); }), ...);
}
static bool all_fp(T) { return true; }
#if MC_PART == 0
OP1(ceil, dpm::ceil(x)) OP1(floor, dpm::floor(x)) OP1(trunc, dpm::trunc(x)) OP1(round, dpm::round(x)) OP1(rint, dpm::rint(x)) OP1(nearbyint, dpm::nearbyint(x))
REF(ceil, T, c_ceil(x)) REF(floor, T, c_floor(x)) REF(trunc, T, c_trunc(x)) REF(round, T, c_round(x)) REF(rint, T, c_rint(x)) REF(nearbyint, T, c_nearbyint(x))
static void run()
{
    std::vector<Tup<T>> cs;
    for (auto x : values()) cs.push_back({x, x, x});
    for (int m = 0; m < 4; ++m)
    {
        std::fesetround(modes[m]); zero_sign = !m;
        const std::string s = m ? std::string("@") + mode_name[m] : "";
        every<o_ceil, T>(FULL{}, "ceil" + s, r_ceil, cs); every<o_floor, T>(FULL{}, "floor" + s, r_floor, cs); every<o_trunc, T>(FULL{}, "trunc" + s, r_trunc, cs);
        if (!m) every<o_round, T>(FULL{}, "round", r_round, cs);
        every<o_rint, T>(FULL{}, "rint" + s, r_rint, cs); every<o_nearbyint, T>(FULL{}, "nearbyint" + s, r_nearbyint, cs);
        grid<o_rint, T>(DENSE{}, "rint" + s, r_rint, all_fp); grid<o_nearbyint, T>(DENSE{}, "nearbyint" + s, r_nearbyint, all_fp);
        grid<o_ceil, T>(DENSE{}, "ceil" + s, r_ceil, all_fp); grid<o_floor, T>(DENSE{}, "floor" + s, r_floor, all_fp); grid<o_trunc, T>(DENSE{}, "trunc" + s, r_trunc, all_fp);
        if (!m) grid<o_round, T>(DENSE{}, "round", r_round, all_fp);
        std::fesetround(FE_TONEAREST);
    }
}
#else
// only values whose result is representable in I
template<class I> static bool fits(T r) { return r >= static_cast<T>(std::numeric_limits<I>::min()) && r < -static_cast<T>(std::numeric_limits<I>::min()); }
template<class I> struct iops
{
    OP1(iround, dpm::ext::iround<I>(x)) OP1(irint, dpm::ext::irint<I>(x)) OP1(itrunc, dpm::ext::itrunc<I>(x))
    REF(iround, I, static_cast<I>(c_round(x))) REF(irint, I, static_cast<I>(c_rint(x))) REF(itrunc, I, static_cast<I>(c_trunc(x)))
};
OP1(lround, dpm::lround(x)) OP1(llround, dpm::llround(x)) OP1(lrint, dpm::lrint(x)) OP1(llrint, dpm::llrint(x)) OP1(ltrunc, dpm::ext::ltrunc(x)) OP1(lltrunc, dpm::ext::lltrunc(x))
REF(lround, long, c_lround(x)) REF(llround, long, c_llround(x)) REF(lrint, long, c_lrint(x)) REF(llrint, long, c_llrint(x)) REF(ltrunc, long, static_cast<long>(c_trunc(x))) REF(lltrunc, long, static_cast<long>(c_trunc(x)))
static bool dom64r(T x) { return fits<long>(c_round(x)); }
static bool dom64n(T x) { return fits<long>(c_rint(x)); }
static bool dom64t(T x) { return fits<long>(c_trunc(x)); }
template<class I> static bool domr(T x) { return fits<I>(c_round(x)); }
template<class I> static bool domn(T x) { return fits<I>(c_rint(x)); }
template<class I> static bool domt(T x) { return fits<I>(c_trunc(x)); }
static std::vector<Tup<T>> in(bool (*dom)(T)) { std::vector<Tup<T>> r; for (auto x : values()) if (dom(x)) r.push_back({x, x, x}); return r; }
template<class I> static void ints(int m)
{
    const std::string s = std::string("<") + tn<I>() + ">" + (m ? std::string("@") + mode_name[m] : "");
    if (!m)
    {
        every<typename iops<I>::o_iround, I>(FULL{}, "iround" + s, iops<I>::r_iround, in(domr<I>));
        every<typename iops<I>::o_itrunc, I>(FULL{}, "itrunc" + s, iops<I>::r_itrunc, in(domt<I>));
    }
    every<typename iops<I>::o_irint, I>(FULL{}, "irint" + s, iops<I>::r_irint, in(domn<I>));
}
static void run()
{
    for (int m = 0; m < 4; ++m)
    {
        std::fesetround(modes[m]); zero_sign = !m;
        const std::string s = m ? std::string("@") + mode_name[m] : "";
        if (!m)
        {
            every<o_lround, long>(FULL{}, "lround", r_lround, in(dom64r)); every<o_llround, long>(FULL{}, "llround", r_llround, in(dom64r));
            every<o_ltrunc, long>(FULL{}, "ltrunc", r_ltrunc, in(dom64t)); every<o_lltrunc, long>(FULL{}, "lltrunc", r_lltrunc, in(dom64t));
            grid<o_lround, long>(DENSE{}, "lround", r_lround, dom64r); grid<o_ltrunc, long>(DENSE{}, "ltrunc", r_ltrunc, dom64t);
        }
        every<o_lrint, long>(FULL{}, "lrint" + s, r_lrint, in(dom64n)); every<o_llrint, long>(FULL{}, "llrint" + s, r_llrint, in(dom64n));
        grid<o_lrint, long>(DENSE{}, "lrint" + s, r_lrint, dom64n);
        ints<std::int32_t>(m); ints<std::int64_t>(m);
        ints<std::int16_t>(m); ints<std::int8_t>(m);
        std::fesetround(FE_TONEAREST);
    }
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
