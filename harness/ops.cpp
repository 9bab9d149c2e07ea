// Element-wise operators: PART 0 arithmetic, 1 bitwise and shifts, 2 comparisons, 3 min/max/minmax/clamp.
#include "eng.hpp"
using namespace mc;
using T = MC_T;
constexpr bool FP = std::is_floating_point_v<T>;
template<class X> struct wide { using type = std::make_unsigned_t<X>; };
template<> struct wide<float> { using type = float; };
template<> struct wide<double> { using type = double; };
template<> struct wide<long double> { using type = long double; };
using W = wide<T>::type; // wrapping arithmetic is done on the unsigned counterpart
constexpr int BITS = sizeof(T) * 8;
using L = std::numeric_limits<T>;

// signed overflow of the promoted type is not part of any property
#if MC_FP
static bool ovf(T, T, char) { return false; }
#else
static bool ovf(T a, T b, char op)
{
    if constexpr (std::is_unsigned_v<T> || sizeof(T) < 4) return false;
    T r;
    return op == '+' ? __builtin_add_overflow(a, b, &r) : op == '-' ? __builtin_sub_overflow(a, b, &r) : __builtin_mul_overflow(a, b, &r);
}
#endif
static bool div_ok(T a, T b) { if (FP) return true; { if (b == 0) return false; if constexpr (std::is_signed_v<T>) return !(a == L::min() && b == T(-1)); else return true; } }

template<class F> static std::vector<Tup<T>> pairs(F ok, bool small = false)
{
    std::vector<Tup<T>> r;
    const auto al = small ? small_alphabet<T>() : alphabet<T>();
    for (auto a : al) for (auto b : al) if (ok(a, b)) r.push_back({a, b, a});
    return r;
}
static std::vector<Tup<T>> shifts(int mx = BITS)
{
    std::vector<Tup<T>> r;
    for (auto a : alphabet<T>()) for (int s = 0; s < mx; ++s) r.push_back({a, (T) s, a});
    return r;
}

#define OPV(NAME, AR, ...) struct NAME { static constexpr int arity = AR; template<class V> static auto f(const V &a, const V &b = {}, const V &c = {}) { (void) a; (void) b; (void) c; __VA_ARGS__; } };
#define VV(sym, id) OPV(o_##id, 2, return a sym b) OPV(o_##id##_eq, 2, V x = a; V &r = (x sym##= b); if (&r != &x) fail("compound assignment does not return its left operand"); return x)
// vector op scalar: the scalar is lane 0 of b broadcast, lanes are driven by the caller with equal b
#define VS(sym, id) OPV(s_##id, 2, return a sym T(b[0])) OPV(s_##id##_eq, 2, V x = a; V &r = (x sym##= T(b[0])); if (&r != &x) fail("compound assignment does not return its left operand"); return x)

template<class OP, class R> struct runner
{
    template<class A> static void go(const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool (*judge)(R, R, const Tup<T> &) = judge_same<T, R>)
    {
        using V = dpm::simd<T, A>;
        sweep<T, R>(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name, V::size(), OP::arity, &thunk<V, OP, T, R>, ref, cs, judge);
    }
};
template<class OP, class R, class... As> static void all(abis<As...>, const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool (*judge)(R, R, const Tup<T> &) = judge_same<T, R>) { (runner<OP, R>::template go<As>(name, ref, cs, judge), ...); }

// vector-scalar sweeps need the same scalar in every lane
template<class OP, class R, class A> MC_NOINLINE static void vs_one(const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool (*judge)(R, R, const Tup<T> &))
{
    using V = dpm::simd<T, A>;
    constexpr std::size_t N = V::size();
    if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/" + name)) return;
    // group by scalar
    std::map<decltype(bits(T{})), std::vector<T>> g;
    for (auto &t : cs) g[bits(t.b)].push_back(t.a);
    std::uint64_t nt = 0, n = 0;
    for (auto &[sb, as] : g)
    {
        const T s = std::bit_cast<T>(sb);
        for (std::size_t k = 0; k < as.size(); k += std::max<std::size_t>(1, N / 2))
        {
            T a[N], b[N]; R o[N];
            for (std::size_t i = 0; i < N; ++i) { a[i] = as[(k + i) % as.size()]; b[i] = s; }
            thunk<V, OP, T, R>(a, b, b, o);
            ++ops;
            for (std::size_t i = 0; i < N; ++i)
            {
                const R w = ref(a[i], s, s);
                ++n; nt += !trivial_case(w);
                if (!judge(o[i], w, {a[i], s, s})) fail("(%s, scalar %s) lane %zu of %zu: got %s, expected %s", str(a[i]), str(s), i, N, str(o[i]), str(w));
            }
        }
    }
    states += cs.size();
    count(n, nt);
}
template<class OP, class R, class... As> static void all_vs(abis<As...>, const char *name, ref3<T, R> ref, const std::vector<Tup<T>> &cs, bool (*judge)(R, R, const Tup<T> &) = judge_same<T, R>) { (vs_one<OP, R, As>(name, ref, cs, judge), ...); }

using LIST = abi_short<T>::type;
using FULL = abi_list<T>::type;

#if MC_PART == 0
VV(+, add) VV(-, sub) VV(*, mul) VV(/, div)
VS(+, add) VS(-, sub) VS(*, mul) VS(/, div)
OPV(o_neg, 1, return -a) OPV(o_pos, 1, return +a)
OPV(o_preinc, 1, V x = a; V r = ++x; return r) OPV(o_postinc, 1, V x = a; V old = x++; for (std::size_t i = 0; i < V::size(); ++i) if (!same(T(old[i]), T(a[i]))) fail("x++ returned %s for lane %zu of an original %s", str(T(old[i])), i, str(T(a[i]))); return x)
OPV(o_predec, 1, V x = a; V r = --x; return r) OPV(o_postdec, 1, V x = a; V old = x--; for (std::size_t i = 0; i < V::size(); ++i) if (!same(T(old[i]), T(a[i]))) fail("x-- returned %s for lane %zu of an original %s", str(T(old[i])), i, str(T(a[i]))); return x)
template<class> static T rneg(T a, T, T) { return T(W(0) - W(a)); }
#if !MC_FP
VV(%, mod) VS(%, mod)
#endif
static T r_add(T a, T b, T) { return T(W(W(a) + W(b))); }
static T r_sub(T a, T b, T) { return T(W(W(a) - W(b))); }
static T r_mul(T a, T b, T) { return FP ? T(a * b) : T(std::uint64_t(a) * std::uint64_t(b)); }
static T r_div(T a, T b, T) { if constexpr (FP) return a / b; else return T(a / b); }
static T r_neg(T a, T, T) { return FP ? T(-a) : T(W(0) - W(a)); }
static T r_id(T a, T, T) { return a; }
static T r_inc(T a, T, T) { return T(W(a) + W(1)); }
static T r_dec(T a, T, T) { return T(W(a) - W(1)); }
static void run()
{
    const auto ca = pairs([](T a, T b) { return !ovf(a, b, '+'); }), cs = pairs([](T a, T b) { return !ovf(a, b, '-'); }), cm = pairs([](T a, T b) { return !ovf(a, b, '*'); }), cd = pairs(div_ok);
    const auto sa = pairs([](T a, T b) { return !ovf(a, b, '+'); }, true), ss = pairs([](T a, T b) { return !ovf(a, b, '-'); }, true), sm = pairs([](T a, T b) { return !ovf(a, b, '*'); }, true), sd = pairs(div_ok, true);
    all<o_add, T>(FULL{}, "a+b", r_add, ca); all<o_sub, T>(FULL{}, "a-b", r_sub, cs); all<o_mul, T>(FULL{}, "a*b", r_mul, cm); all<o_div, T>(LIST{}, "a/b", r_div, cd);
    all<o_add_eq, T>(LIST{}, "a+=b", r_add, sa); all<o_sub_eq, T>(LIST{}, "a-=b", r_sub, ss); all<o_mul_eq, T>(LIST{}, "a*=b", r_mul, sm); all<o_div_eq, T>(LIST{}, "a/=b", r_div, sd);
    all_vs<s_add, T>(LIST{}, "a+s", r_add, ca); all_vs<s_sub, T>(LIST{}, "a-s", r_sub, cs); all_vs<s_mul, T>(LIST{}, "a*s", r_mul, cm); all_vs<s_div, T>(LIST{}, "a/s", r_div, cd);
    all_vs<s_add_eq, T>(LIST{}, "a+=s", r_add, sa); all_vs<s_sub_eq, T>(LIST{}, "a-=s", r_sub, ss); all_vs<s_mul_eq, T>(LIST{}, "a*=s", r_mul, sm); all_vs<s_div_eq, T>(LIST{}, "a/=s", r_div, sd);
    std::vector<Tup<T>> un, ui, ud, an;
    for (auto x : alphabet<T>()) { an.push_back({x, x, x}); if (!ovf(T(0), x, '-')) un.push_back({x, x, x}); if (!ovf(x, T(1), '+')) ui.push_back({x, x, x}); if (!ovf(x, T(1), '-')) ud.push_back({x, x, x}); }
    all<o_neg, T>(FULL{}, "-a", r_neg, un); all<o_pos, T>(LIST{}, "+a", r_id, an);
    all<o_preinc, T>(LIST{}, "++a", r_inc, ui); all<o_predec, T>(LIST{}, "--a", r_dec, ud);
    all<o_postinc, T>(LIST{}, "a++", r_inc, ui); all<o_postdec, T>(LIST{}, "a--", r_dec, ud);
#if !MC_FP
    auto r_mod = +[](T a, T b, T) -> T { return T(a % b); };
    all<o_mod, T>(LIST{}, "a%b", r_mod, cd); all<o_mod_eq, T>(LIST{}, "a%=b", r_mod, sd);
    all_vs<s_mod, T>(LIST{}, "a%s", r_mod, cd); all_vs<s_mod_eq, T>(LIST{}, "a%=s", r_mod, sd);
#endif
}
#elif MC_PART == 1
VV(&, and) VV(|, or) VV(^, xor) VS(&, and) VS(|, or) VS(^, xor)
VV(<<, shl) VV(>>, shr) VS(<<, shl) VS(>>, shr)
OPV(o_not, 1, return ~a)
template<int N> struct o_lsl { static constexpr int arity = 1; template<class V> static V f(const V &a) { return dpm::ext::lsl<N>(a); } };
template<int N> struct o_lsr { static constexpr int arity = 1; template<class V> static V f(const V &a) { return dpm::ext::lsr<N>(a); } };
template<int N> struct o_asl { static constexpr int arity = 1; template<class V> static V f(const V &a) { return dpm::ext::asl<N>(a); } };
template<int N> struct o_asr { static constexpr int arity = 1; template<class V> static V f(const V &a) { return dpm::ext::asr<N>(a); } };
struct si { template<class I> struct o { static constexpr int arity = 2; template<class V> static V f(const V &a, const V &b) { return a << I(T(b[0])); } }; };
template<int N> static T r_lsl(T a, T, T) { return T(W(a) << N); }
template<int N> static T r_lsr(T a, T, T) { return T(W(a) >> N); }
template<int N> static T r_asr(T a, T, T) { const auto x = (std::int64_t) (std::make_signed_t<T>) a; return T(x >> N); }
template<int N> static void cshift(const std::vector<Tup<T>> &un)
{
    static char n[4][16];
    std::snprintf(n[0], 16, "lsl<%d>", N); std::snprintf(n[1], 16, "lsr<%d>", N); std::snprintf(n[2], 16, "asl<%d>", N); std::snprintf(n[3], 16, "asr<%d>", N);
    using A3 = std::conditional_t<N % 8 == 1, LIST, abis<ab::scalar, fx<3>, fx<16 / sizeof(T)>, av<32 / sizeof(T), 32>>>;
    all<o_lsl<N>, T>(A3{}, n[0], r_lsl<N>, un); all<o_lsr<N>, T>(A3{}, n[1], r_lsr<N>, un);
    if constexpr (std::is_signed_v<T>) { all<o_asl<N>, T>(A3{}, n[2], r_lsl<N>, un); all<o_asr<N>, T>(A3{}, n[3], r_asr<N>, un); }
}
static void run()
{
    const auto any = pairs([](T, T) { return true; }), sm = pairs([](T, T) { return true; }, true), sh = shifts();
    auto r_and = +[](T a, T b, T) -> T { return T(a & b); };
    auto r_or = +[](T a, T b, T) -> T { return T(a | b); };
    auto r_xor = +[](T a, T b, T) -> T { return T(a ^ b); };
    auto r_shl = +[](T a, T b, T) -> T { return T(W(a) << int(b)); };
    auto r_shr = +[](T a, T b, T) -> T { return T(a >> int(b)); };
    all<o_and, T>(FULL{}, "a&b", r_and, any); all<o_or, T>(FULL{}, "a|b", r_or, any); all<o_xor, T>(FULL{}, "a^b", r_xor, any);
    all<o_and_eq, T>(LIST{}, "a&=b", r_and, sm); all<o_or_eq, T>(LIST{}, "a|=b", r_or, sm); all<o_xor_eq, T>(LIST{}, "a^=b", r_xor, sm);
    all_vs<s_and, T>(LIST{}, "a&s", r_and, sm); all_vs<s_or, T>(LIST{}, "a|s", r_or, sm); all_vs<s_xor, T>(LIST{}, "a^s", r_xor, sm);
    all_vs<s_and_eq, T>(LIST{}, "a&=s", r_and, sm); all_vs<s_or_eq, T>(LIST{}, "a|=s", r_or, sm); all_vs<s_xor_eq, T>(LIST{}, "a^=s", r_xor, sm);
    all<o_shl, T>(FULL{}, "a<<b", r_shl, sh); all<o_shr, T>(FULL{}, "a>>b", r_shr, sh);
    all<o_shl_eq, T>(LIST{}, "a<<=b", r_shl, sh); all<o_shr_eq, T>(LIST{}, "a>>=b", r_shr, sh);
    all_vs<s_shl, T>(LIST{}, "a<<s", r_shl, sh); all_vs<s_shr, T>(LIST{}, "a>>s", r_shr, sh);
    all_vs<s_shl_eq, T>(LIST{}, "a<<=s", r_shl, sh); all_vs<s_shr_eq, T>(LIST{}, "a>>=s", r_shr, sh);
    std::vector<Tup<T>> un;
    for (auto x : alphabet<T>()) un.push_back({x, x, x});
    all<o_not, T>(FULL{}, "~a", +[](T a, T, T) -> T { return T(~a); }, un);
    [&]<int... N>(std::integer_sequence<int, N...>) { (cshift<N>(un), ...); }(std::integer_sequence<int, 0, 1, 2, 5, BITS / 2 - 1, BITS / 2, BITS - 3, BITS - 2>{});
    if constexpr (BITS == 64) { cshift<15>(un); cshift<16>(un); cshift<33>(un); cshift<48>(un); }
    if constexpr (!std::is_signed_v<T>) cshift<BITS - 1>(un);
}
#elif MC_PART == 2
#define CMP(sym, id) OPV(o_##id, 2, return a sym b) static uc r_##id(T a, T b, T) { return a sym b; }
CMP(==, eq) CMP(!=, ne) CMP(<, lt) CMP(<=, le) CMP(>, gt) CMP(>=, ge)
#if !MC_FP
OPV(o_lnot, 1, return !a)
#endif
static void run()
{
    const auto any = pairs([](T, T) { return true; });
    all<o_eq, uc>(FULL{}, "a==b", r_eq, any); all<o_ne, uc>(FULL{}, "a!=b", r_ne, any);
    all<o_lt, uc>(FULL{}, "a<b", r_lt, any); all<o_le, uc>(FULL{}, "a<=b", r_le, any);
    all<o_gt, uc>(FULL{}, "a>b", r_gt, any); all<o_ge, uc>(FULL{}, "a>=b", r_ge, any);
#if !MC_FP
    std::vector<Tup<T>> un;
    for (auto x : alphabet<T>()) un.push_back({x, x, x});
    all<o_lnot, uc>(FULL{}, "!a", +[](T a, T, T) -> uc { return !a; }, un);
#endif
}
#elif MC_PART == 3
OPV(o_min, 2, return dpm::min(a, b)) OPV(o_max, 2, return dpm::max(a, b))
OPV(s_min, 2, return dpm::min(a, T(b[0]))) OPV(s_max, 2, return dpm::max(a, T(b[0])))
OPV(o_mm0, 2, return dpm::minmax(a, b).first) OPV(o_mm1, 2, return dpm::minmax(a, b).second)
OPV(s_mm0, 2, return dpm::minmax(a, T(b[0])).first) OPV(s_mm1, 2, return dpm::minmax(a, T(b[0])).second)
OPV(o_clamp, 3, return dpm::clamp(a, b, c))
struct s_clamp { static constexpr int arity = 3; template<class V> static V f(const V &a, const V &b, const V &c) { return dpm::clamp(a, T(b[0]), T(c[0])); } };
static T r_min(T a, T b, T) { return std::min(a, b); }
static T r_max(T a, T b, T) { return std::max(a, b); }
// {min, max}; for elements which are unordered or equal the choice of std::minmax is as good as that of std::max
static bool j_mm1(T g, T w, const Tup<T> &t) { return same(g, w) || same(g, t.b < t.a ? t.a : t.b); }
static T r_clamp(T x, T lo, T hi) { return x < lo ? lo : hi < x ? hi : x; }
static void run()
{
    const auto any = pairs([](T, T) { return true; }), sm = pairs([](T, T) { return true; }, true);
    all<o_min, T>(FULL{}, "min", r_min, any); all<o_max, T>(FULL{}, "max", r_max, any);
    all<o_mm0, T>(LIST{}, "minmax.min", r_min, any); all<o_mm1, T>(LIST{}, "minmax.max", r_max, any, j_mm1);
    all_vs<s_min, T>(LIST{}, "min(a,s)", r_min, sm); all_vs<s_max, T>(LIST{}, "max(a,s)", r_max, sm);
    all_vs<s_mm0, T>(LIST{}, "minmax(a,s).min", r_min, sm); all_vs<s_mm1, T>(LIST{}, "minmax(a,s).max", r_max, sm, j_mm1);
    std::vector<Tup<T>> tr;
    const auto al = small_alphabet<T>();
    for (auto x : al) for (auto lo : al) for (auto hi : al) if (lo <= hi) tr.push_back({x, lo, hi});
    all<o_clamp, T>(FULL{}, "clamp", r_clamp, tr);
    // scalar bounds: one tuple per vector
    for_abis(LIST{}, [&]<class A>()
    {
        using V = dpm::simd<T, A>;
        if (!site(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/clamp(x,s,s)")) return;
        for (auto lo : al) for (auto hi : al) if (lo <= hi)
            for (std::size_t k = 0; k < al.size(); ++k)
            {
                T a[128], b[128], c[128], o[128];
                for (std::size_t i = 0; i < V::size(); ++i) { a[i] = al[(k + i) % al.size()]; b[i] = lo; c[i] = hi; }
                thunk<V, s_clamp, T, T>(a, b, c, o); ++ops; ++states;
                count(V::size(), V::size());
                for (std::size_t i = 0; i < V::size(); ++i) if (!same(o[i], r_clamp(a[i], lo, hi))) fail("clamp(%s, %s, %s) lane %zu gave %s", str(a[i]), str(lo), str(hi), i, str(o[i]));
            }
    });
}
#endif
int main(int argc, char **argv)
{
    init(argc, argv);
    run();
    return finish();
}
