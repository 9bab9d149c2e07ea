// Constant evaluation: operations computed by the compiler's constant evaluator for every tuple of values, and again at run
// time; both compared with the scalar operation. PART 0: vectors whose storage is an array (scalar and packed), constant
// initialisation of vectors of every ABI; PART 1, 2: vectors with native storage.
#include "eng.hpp"
#include <array>
#include <cmath>
#include <utility>
using namespace mc;
using T = MC_T;
constexpr bool FP = std::is_floating_point_v<T>;
using L = std::numeric_limits<T>;

// values: the constant evaluator refuses operations with undefined or overflowing results, so operands are filtered per operation
template<class T> constexpr auto make_values()
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>) return std::array<T, 12>{T(0), -T(0), T(1), T(-1), T(2.5), T(-7.25), T(0.5), T(1e10), L::max(), L::denorm_min(), -L::infinity(), L::quiet_NaN()};
    else return std::array<T, 12>{T(0), T(1), T(-1), L::min(), L::max(), T(2), T(7), T(-3), T(0x55), T(100), T(0x80), T(L::max() / 3)};
}
constexpr auto VALS = make_values<T>();
constexpr std::size_t NV = VALS.size();

enum Op
{
    o_add, o_sub, o_mul, o_div, o_adda, o_suba, o_mula, o_diva, o_addt, o_subt, o_mult, o_divt,
    o_rem, o_and, o_or, o_xor, o_shl, o_shr, o_rema, o_anda, o_ora, o_xora, o_shla, o_shra, o_shln, o_shrn, o_not,
    o_neg, o_pos, o_inc, o_dec, o_pinc, o_pdec, o_lnot,
    o_eq, o_ne, o_lt, o_le, o_gt, o_ge, o_eqt,
    o_mand, o_mor, o_mxor, o_mland, o_mlor, o_mnot, o_meq, o_mne, o_mblend, o_manda,
    o_blend, o_min, o_max, o_minmax, o_clamp, o_abs,
    o_hadd, o_hmul, o_rmin, o_rmax, o_hand, o_hor, o_hxor, o_all, o_any, o_none, o_some, o_count, o_imin, o_imax,
    o_copy, o_mcopyto, o_mcopyfrom, o_mask_copy, o_shuffle, o_mshuffle, o_gen, o_set, o_castf, o_casti, o_cast8,
    o_fmin, o_fmax, o_fdim, o_copysign, o_sqrt, o_floor, o_ceil, o_trunc, o_round, o_signbit, o_isnan, o_isinf, o_isfinite, o_isnormal, o_fpclass,
    o_isless, o_isgreater, o_isunord, o_fma, o_fmadd, o_fnmsub, o_fmod,
    n_ops
};
static const char *const NAME[] = {
    "a+b", "a-b", "a*b", "a/b", "a+=b", "a-=b", "a*=b", "a/=b", "a+t", "a-t", "a*t", "a/t",
    "a%b", "a&b", "a|b", "a^b", "a<<b", "a>>b", "a%=b", "a&=b", "a|=b", "a^=b", "a<<=b", "a>>=b", "a<<n", "a>>n", "~a",
    "-a", "+a", "++a", "--a", "a++", "a--", "!a",
    "a==b", "a!=b", "a<b", "a<=b", "a>b", "a>=b", "a==t",
    "m&n", "m|n", "m^n", "m&&n", "m||n", "~m", "m==n", "m!=n", "blend(m,m,n)", "m&=n",
    "blend", "min", "max", "minmax", "clamp", "abs",
    "hadd", "hmul", "reduce_min", "reduce_max", "hand", "hor", "hxor", "all_of", "any_of", "none_of", "some_of", "reduce_count", "reduce_min_index", "reduce_max_index",
    "copy_to/from", "masked copy_to", "masked copy_from", "mask copy", "shuffle", "mask shuffle", "generator", "a[i]=", "cast<float>", "cast<int>", "cast<int8>",
    "fmin", "fmax", "fdim", "copysign", "sqrt", "floor", "ceil", "trunc", "round", "signbit", "isnan", "isinf", "isfinite", "isnormal", "fpclassify",
    "isless", "isgreater", "isunordered", "fma", "fmadd", "fnmsub", "fmod"};
static_assert(std::size(NAME) == n_ops);

constexpr bool fp_only(int o) { return o >= o_fmin || o == o_abs; } // std::abs of integers is not constexpr here
constexpr bool int_only(int o) { return (o >= o_rem && o <= o_not) || (o >= o_hand && o <= o_hxor); }
constexpr bool nan(T a) { return a != a; }
constexpr bool inf(T a) { return FP && (a == L::infinity() || a == -L::infinity()); }
constexpr bool fin(T a) { return !nan(a) && !inf(a); }
constexpr bool small(T a) { if constexpr (FP) return a <= T(1e10) && a >= T(-1e10) && (a == 0 || a >= T(0.1) || a <= T(-0.1)); else return true; }
using W = std::conditional_t<FP, long double, __int128>;
// operands the operation is defined (and folded by the evaluator) for
constexpr bool dom(int o, T a, T b, int shift)
{
    if constexpr (FP)
    {
        switch (o)
        {
            case o_add: case o_adda: case o_addt: case o_sub: case o_suba: case o_subt: case o_mul: case o_mula: case o_mult: case o_hadd: case o_hmul: return small(a) && small(b);
            case o_div: case o_diva: case o_divt: return small(a) && small(b) && b != 0;
            case o_inc: case o_dec: case o_pinc: case o_pdec: return fin(a);
            case o_casti: return small(a) && a <= 1e9f && a >= -1e9f;
            case o_cast8: return a <= 100 && a >= -100;
            case o_castf: return small(a);
            case o_fma: case o_fmadd: case o_fnmsub: return small(a) && small(b) && a < T(100) && b < T(100); // exact, fused or not
            case o_fdim: case o_fmod: return small(a) && small(b) && b != 0;
            case o_fmin: case o_fmax: return fin(a) && fin(b) && (a != 0 || b != 0);
            case o_sqrt: return fin(a) && a >= 0;
            case o_floor: case o_ceil: case o_trunc: case o_round: return fin(a);
            case o_rmin: case o_rmax: case o_min: case o_max: case o_minmax: case o_clamp: return !nan(a) && !nan(b) && (a != 0 || b != 0);
            default: return true;
        }
    }
    else
    {
        const W x = a, y = b;
        auto fits = [](W r) { return !std::is_signed_v<T> || sizeof(T) < 4 || (r <= W(L::max()) && r >= W(L::min())); };
        switch (o)
        {
            case o_add: case o_adda: case o_addt: case o_hadd: return fits(x + y) && (o != o_hadd || small(a));
            case o_sub: case o_suba: case o_subt: return fits(x - y);
            case o_mul: case o_mula: case o_mult: return (sizeof(T) != 2 || std::is_signed_v<T> || x * y <= 0x7fffffff) && (sizeof(T) == 8 && !std::is_signed_v<T> ? true : fits(x * y));
            case o_div: case o_diva: case o_divt: case o_rem: case o_rema: return b != 0 && fits(x / y);
            case o_castf: return x <= 1000000 && x >= -1000000;
            case o_neg: case o_abs: return fits(-x);
            case o_inc: case o_pinc: return fits(x + 1);
            case o_dec: case o_pdec: return fits(x - 1);
            case o_shl: case o_shr: case o_shla: case o_shra: return y >= 0 && y < W(sizeof(T) * 8) && y < 64;
            default: return true;
        }
    }
}
template<class V> struct Out { std::array<T, V::size()> v{}; };
template<class V, class M> constexpr std::array<T, V::size()> bits(const M &m) { std::array<T, V::size()> r{}; for (std::size_t i = 0; i < V::size(); ++i) r[i] = m[i] ? T(1) : T(0); return r; }
template<class V, class X> constexpr std::array<T, V::size()> elems(const X &x) { std::array<T, V::size()> r{}; for (std::size_t i = 0; i < V::size(); ++i) r[i] = static_cast<T>(x[i]); return r; }
template<class V> constexpr std::array<T, V::size()> fill(T x) { std::array<T, V::size()> r{}; for (auto &e : r) e = x; return r; }

template<class V> constexpr bool array_storage = false; // elements can be assigned in constant expressions
template<class T, std::size_t N> constexpr bool array_storage<dpm::simd<T, pk<N>>> = true;
template<class T> constexpr bool array_storage<dpm::simd<T, ab::scalar>> = true;
template<class V, int O, class I = std::make_index_sequence<V::size()>> struct calc;
template<class V, int O, std::size_t... I> struct calc<V, O, std::index_sequence<I...>>
{
    using R = std::array<T, V::size()>;
    using M = typename V::mask_type;
    static constexpr std::size_t N = V::size();
    static constexpr V from(const T *p) { return V(p, dpm::element_aligned); }
    static constexpr M mask(const T *p) { return M([&](std::size_t i) { return p[i] == T(1) || p[i] < T(0); }); }
    static constexpr R go(const T *pa, const T *pb)
    {
        V a = from(pa);
        const V b = from(pb);
        if constexpr (O == o_add) return elems<V>(a + b);
        else if constexpr (O == o_sub) return elems<V>(a - b);
        else if constexpr (O == o_mul) return elems<V>(a * b);
        else if constexpr (O == o_div) return elems<V>(a / b);
        else if constexpr (O == o_adda) return elems<V>(a += b);
        else if constexpr (O == o_suba) return elems<V>(a -= b);
        else if constexpr (O == o_mula) return elems<V>(a *= b);
        else if constexpr (O == o_diva) return elems<V>(a /= b);
        else if constexpr (O == o_addt) return elems<V>(a + pb[0]);
        else if constexpr (O == o_subt) return elems<V>(a - pb[0]);
        else if constexpr (O == o_mult) return elems<V>(a * pb[0]);
        else if constexpr (O == o_divt) return elems<V>(a / pb[0]);
        else if constexpr (O == o_rem) return elems<V>(a % b);
        else if constexpr (O == o_and) return elems<V>(a & b);
        else if constexpr (O == o_or) return elems<V>(a | b);
        else if constexpr (O == o_xor) return elems<V>(a ^ b);
        else if constexpr (O == o_shl) return elems<V>(a << b);
        else if constexpr (O == o_shr) return elems<V>(a >> b);
        else if constexpr (O == o_rema) return elems<V>(a %= b);
        else if constexpr (O == o_anda) return elems<V>(a &= b);
        else if constexpr (O == o_ora) return elems<V>(a |= b);
        else if constexpr (O == o_xora) return elems<V>(a ^= b);
        else if constexpr (O == o_shla) return elems<V>(a <<= b);
        else if constexpr (O == o_shra) return elems<V>(a >>= b);
        else if constexpr (O == o_shln) return elems<V>(a << 3);
        else if constexpr (O == o_shrn) return elems<V>(a >> 3);
        else if constexpr (O == o_not) return elems<V>(~a);
        else if constexpr (O == o_neg) return elems<V>(-a);
        else if constexpr (O == o_pos) return elems<V>(+a);
        else if constexpr (O == o_inc) return elems<V>(++a);
        else if constexpr (O == o_dec) return elems<V>(--a);
        else if constexpr (O == o_pinc) { const V r = a++; return elems<V>(blendm(r, a)); }
        else if constexpr (O == o_pdec) { const V r = a--; return elems<V>(blendm(r, a)); }
        else if constexpr (O == o_lnot) return bits<V>(!a);
        else if constexpr (O == o_eq) return bits<V>(a == b);
        else if constexpr (O == o_ne) return bits<V>(a != b);
        else if constexpr (O == o_lt) return bits<V>(a < b);
        else if constexpr (O == o_le) return bits<V>(a <= b);
        else if constexpr (O == o_gt) return bits<V>(a > b);
        else if constexpr (O == o_ge) return bits<V>(a >= b);
        else if constexpr (O == o_eqt) return bits<V>(a == V(pb[0]));
        else if constexpr (O == o_mand) return bits<V>(mask(pa) & mask(pb));
        else if constexpr (O == o_mor) return bits<V>(mask(pa) | mask(pb));
        else if constexpr (O == o_mxor) return bits<V>(mask(pa) ^ mask(pb));
        else if constexpr (O == o_mland) return bits<V>(mask(pa) && mask(pb));
        else if constexpr (O == o_mlor) return bits<V>(mask(pa) || mask(pb));
        else if constexpr (O == o_mnot) return bits<V>(~mask(pa));
        else if constexpr (O == o_meq) return bits<V>(mask(pa) == mask(pb));
        else if constexpr (O == o_mne) return bits<V>(mask(pa) != mask(pb));
        else if constexpr (O == o_mblend) return bits<V>(dpm::blend(mask(pa), mask(pa), mask(pb)));
        else if constexpr (O == o_manda) { M m = mask(pa); m &= mask(pb); return bits<V>(m); }
        else if constexpr (O == o_blend) return elems<V>(dpm::blend(mask(pa), a, b));
        else if constexpr (O == o_min) return elems<V>(dpm::min(a, b));
        else if constexpr (O == o_max) return elems<V>(dpm::max(a, b));
        else if constexpr (O == o_minmax) { const auto r = dpm::minmax(a, b); return elems<V>(pick(r.first, r.second)); }
        else if constexpr (O == o_clamp) return elems<V>(dpm::clamp(a, dpm::min(a, b), b));
        else if constexpr (O == o_abs) return elems<V>(dpm::abs(a));
        else if constexpr (O == o_hadd) return fill<V>(dpm::ext::hadd(a));
        else if constexpr (O == o_hmul) return fill<V>(dpm::ext::hmul(dpm::blend(mask(pa), V(T(1)), V(T(2)))));
        else if constexpr (O == o_rmin) return fill<V>(dpm::reduce_min(a));
        else if constexpr (O == o_rmax) return fill<V>(dpm::reduce_max(a));
        else if constexpr (O == o_hand) return fill<V>(dpm::ext::hand(a));
        else if constexpr (O == o_hor) return fill<V>(dpm::ext::hor(a));
        else if constexpr (O == o_hxor) return fill<V>(dpm::ext::hxor(a));
        else if constexpr (O == o_all) return fill<V>(T(dpm::all_of(mask(pa))));
        else if constexpr (O == o_any) return fill<V>(T(dpm::any_of(mask(pa))));
        else if constexpr (O == o_none) return fill<V>(T(dpm::none_of(mask(pa))));
        else if constexpr (O == o_some) return fill<V>(T(dpm::some_of(mask(pa))));
        else if constexpr (O == o_count) return fill<V>(T(dpm::reduce_count(mask(pa))));
        else if constexpr (O == o_imin) return fill<V>(T(dpm::reduce_min_index(mask(pa))));
        else if constexpr (O == o_imax) return fill<V>(T(dpm::reduce_max_index(mask(pa))));
        else if constexpr (O == o_copy) { T t[N]{}; b.copy_to(t, dpm::element_aligned); a.copy_from(t, dpm::element_aligned); return elems<V>(a); }
        else if constexpr (O == o_mcopyto) { R t{}; for (std::size_t i = 0; i < N; ++i) t[i] = pb[i]; a.copy_to(t.data(), mask(pa), dpm::element_aligned); return t; }
        else if constexpr (O == o_mcopyfrom) { a.copy_from(pb, mask(pa), dpm::element_aligned); return elems<V>(a); }
        else if constexpr (O == o_mask_copy) { bool t[N]{}; mask(pa).copy_to(t, dpm::element_aligned); M m(true); m.copy_from(t, dpm::element_aligned); return bits<V>(m); }
        else if constexpr (O == o_shuffle) return elems<V>(dpm::ext::shuffle<(N - 1 - I)...>(a));
        else if constexpr (O == o_mshuffle) return bits<V>(dpm::ext::shuffle<(N - 1 - I)...>(mask(pa)));
        else if constexpr (O == o_gen) { const V g([&](auto i) { return pb[decltype(i)::value]; }); return elems<V>(g); }
        else if constexpr (O == o_set && array_storage<V>) { a[N - 1] = pb[N - 1]; if (a[0] == T(1)) a[0] = T(3); return elems<V>(a); }
        else if constexpr (O == o_castf) return elems<V>(dpm::static_simd_cast<dpm::rebind_simd_t<float, V>>(a));
        else if constexpr (O == o_casti) return elems<V>(dpm::static_simd_cast<dpm::rebind_simd_t<int, V>>(a));
        else if constexpr (O == o_cast8) return elems<V>(dpm::static_simd_cast<dpm::rebind_simd_t<std::int8_t, V>>(a));
        else if constexpr (O == o_fmin) return elems<V>(dpm::fmin(a, b));
        else if constexpr (O == o_fmax) return elems<V>(dpm::fmax(a, b));
        else if constexpr (O == o_fdim) return elems<V>(dpm::fdim(a, b));
        else if constexpr (O == o_copysign) return elems<V>(dpm::copysign(a, b));
        else if constexpr (O == o_sqrt) return elems<V>(dpm::sqrt(a));
        else if constexpr (O == o_floor) return elems<V>(dpm::floor(a));
        else if constexpr (O == o_ceil) return elems<V>(dpm::ceil(a));
        else if constexpr (O == o_trunc) return elems<V>(dpm::trunc(a));
        else if constexpr (O == o_round) return elems<V>(dpm::round(a));
        else if constexpr (O == o_signbit) return bits<V>(dpm::signbit(a));
        else if constexpr (O == o_isnan) return bits<V>(dpm::isnan(a));
        else if constexpr (O == o_isinf) return bits<V>(dpm::isinf(a));
        else if constexpr (O == o_isfinite) return bits<V>(dpm::isfinite(a));
        else if constexpr (O == o_isnormal) return bits<V>(dpm::isnormal(a));
        else if constexpr (O == o_fpclass) return elems<V>(dpm::fpclassify(a));
        else if constexpr (O == o_isless) return bits<V>(dpm::isless(a, b));
        else if constexpr (O == o_isgreater) return bits<V>(dpm::isgreater(a, b));
        else if constexpr (O == o_isunord) return bits<V>(dpm::isunordered(a, b));
        else if constexpr (O == o_fma) return elems<V>(dpm::fma(a, b, a));
        else if constexpr (O == o_fmadd) return elems<V>(dpm::ext::fmadd(a, b, a));
        else if constexpr (O == o_fnmsub) return elems<V>(dpm::ext::fnmsub(a, b, a));
        else if constexpr (O == o_fmod) return elems<V>(dpm::fmod(a, b));
        else return R{};
    }
    static constexpr V pick(const V &r, const V &a) { return V([&](std::size_t i) { return i == N - 1 ? a[i] : r[i]; }); }
    static constexpr V blendm(const V &r, const V &a) { return N > 1 ? pick(r, a) : r; }
};
// scalar model of lane i
static bool bit(T x) { return x == T(1) || x < T(0); }
static T wrap(W x) { if constexpr (FP) return T(x); else return static_cast<T>(static_cast<std::uint64_t>(static_cast<unsigned __int128>(x))); }
template<class T> static T model(int o, const T *a, const T *b, std::size_t n, std::size_t i)
{
    constexpr bool FP = std::is_floating_point_v<T>;
    using W = std::conditional_t<FP, long double, __int128>;
    const T x = a[i], y = b[i];
    const W wx = W(x), wy = W(y);
    auto cnt = [&] { std::size_t c = 0; for (std::size_t k = 0; k < n; ++k) c += bit(a[k]); return c; };
    if constexpr (!FP)
        switch (o)
        {
            case o_rem: case o_rema: return wrap(wx % wy);
            case o_and: case o_anda: return T(x & y);
            case o_or: case o_ora: return T(x | y);
            case o_xor: case o_xora: return T(x ^ y);
            case o_shl: case o_shla: return wrap(W(static_cast<unsigned __int128>(wx) << int(y)));
            case o_shr: case o_shra: return wrap(wx >> int(y));
            case o_shln: return wrap(W(static_cast<unsigned __int128>(wx) << 3));
            case o_shrn: return wrap(wx >> 3);
            case o_not: return T(~x);
            case o_hand: { T r = a[0]; for (std::size_t k = 1; k < n; ++k) r &= a[k]; return r; }
            case o_hor: { T r = a[0]; for (std::size_t k = 1; k < n; ++k) r |= a[k]; return r; }
            case o_hxor: { T r = a[0]; for (std::size_t k = 1; k < n; ++k) r ^= a[k]; return r; }
            default: break;
        }
    switch (o)
    {
        case o_add: case o_adda: return wrap(wx + wy);
        case o_sub: case o_suba: return wrap(wx - wy);
        case o_mul: case o_mula: return wrap(wx * wy);
        case o_div: case o_diva: if constexpr (FP) { volatile T r = x / y; return r; } else return wrap(wx / wy);
        case o_addt: return wrap(wx + W(b[0]));
        case o_subt: return wrap(wx - W(b[0]));
        case o_mult: return wrap(wx * W(b[0]));
        case o_divt: if constexpr (FP) { volatile T r = x / b[0]; return r; } else return wrap(wx / W(b[0]));
        case o_neg: return wrap(-wx);
        case o_pos: return x;
        case o_inc: return wrap(wx + 1);
        case o_dec: return wrap(wx - 1);
        case o_pinc: return n > 1 && i == n - 1 ? wrap(wx + 1) : x;
        case o_pdec: return n > 1 && i == n - 1 ? wrap(wx - 1) : x;
        case o_lnot: return !x;
        case o_eq: return x == y;
        case o_ne: return x != y;
        case o_lt: return x < y;
        case o_le: return x <= y;
        case o_gt: return x > y;
        case o_ge: return x >= y;
        case o_eqt: return x == b[0];
        case o_mand: case o_mland: case o_manda: return bit(x) && bit(y);
        case o_mor: case o_mlor: return bit(x) || bit(y);
        case o_mxor: case o_mne: return bit(x) != bit(y);
        case o_mnot: return !bit(x);
        case o_meq: return bit(x) == bit(y);
        case o_mblend: return bit(x) ? bit(x) : bit(y);
        case o_blend: return bit(x) ? x : y;
        case o_minmax: if (i == n - 1) return x < y ? y : x; return y < x ? y : x;
        case o_min: case o_fmin: return y < x ? y : x;
        case o_max: case o_fmax: return x < y ? y : x;
        case o_clamp: { const T lo = y < x ? y : x; return x < lo ? lo : y < x ? y : x; }
        case o_abs: return x < T(0) || (FP && std::signbit((long double) x)) ? wrap(-wx) : x;
        case o_hadd: { W r = 0; for (std::size_t k = 0; k < n; ++k) r += a[k]; return wrap(r); }
        case o_hmul: { T r = 1; for (std::size_t k = 0; k < n; ++k) r = T(r * (bit(a[k]) ? 1 : 2)); return r; }
        case o_rmin: { T r = a[0]; for (std::size_t k = 1; k < n; ++k) if (a[k] < r) r = a[k]; return r; }
        case o_rmax: { T r = a[0]; for (std::size_t k = 1; k < n; ++k) if (a[k] > r) r = a[k]; return r; }
        case o_all: return cnt() == n;
        case o_any: return cnt() > 0;
        case o_none: return cnt() == 0;
        case o_some: return cnt() > 0 && cnt() < n;
        case o_count: return T(cnt());
        case o_imin: for (std::size_t k = 0; k < n; ++k) if (bit(a[k])) return T(k); return 0;
        case o_imax: for (std::size_t k = n; k-- > 0;) if (bit(a[k])) return T(k); return 0;
        case o_copy: case o_gen: return y;
        case o_mcopyto: return bit(x) ? x : y;
        case o_mcopyfrom: return bit(x) ? y : x;
        case o_mask_copy: return bit(x);
        case o_shuffle: return a[n - 1 - i];
        case o_mshuffle: return bit(a[n - 1 - i]);
        case o_set: { T r = i == n - 1 ? y : x; if (i == 0 && r == T(1)) r = 3; return r; }
        case o_castf: return T(float(x));
        case o_casti: return T(static_cast<int>(x));
        case o_cast8: return T(static_cast<std::int8_t>(x));
        default: break;
    }
    if constexpr (FP)
        switch (o)
        {
            case o_fdim: return std::fdim(x, y);
            case o_copysign: return std::copysign(x, y);
            case o_sqrt: return std::sqrt(x);
            case o_floor: return std::floor(x);
            case o_ceil: return std::ceil(x);
            case o_trunc: return std::trunc(x);
            case o_round: return std::round(x);
            case o_signbit: return std::signbit(x);
            case o_isnan: return nan(x);
            case o_isinf: return inf(x);
            case o_isfinite: return fin(x);
            case o_isnormal: return std::isnormal(x);
            case o_fpclass: return T(std::fpclassify(x));
            case o_isless: return x < y;
            case o_isgreater: return x > y;
            case o_isunord: return nan(x) || nan(y);
            case o_fma: case o_fmadd: return std::fma(x, y, x);
            case o_fnmsub: return std::fma(-x, y, -x);
            case o_fmod: return std::fmod(x, y);
            default: break;
        }
    return 0;
}
// operand vectors: pair (i, j) in lane 0, following pairs in the other lanes; lanes outside the domain take 1, 1
template<class V, int O> constexpr void operands(std::size_t k, T *a, T *b)
{
    for (std::size_t l = 0; l < V::size(); ++l)
    {
        const std::size_t q = (k + l * (NV + 5)) % (NV * NV);
        a[l] = VALS[q / NV];
        b[l] = O == o_addt || O == o_subt || O == o_mult || O == o_divt || O == o_eqt ? VALS[k % NV] : VALS[q % NV];
        if (O == o_shla || O == o_shra || O == o_shl || O == o_shr) if constexpr (!FP) b[l] = static_cast<T>((q % NV) * (sizeof(T) * 8 - 1) / (NV - 1));
        if (O == o_addt || O == o_subt || O == o_mult || O == o_divt) { if (!dom(O, a[l], b[l], 0)) { a[l] = T(2); if (!dom(O, a[l], b[l], 0)) a[l] = T(0); if (!dom(O, a[l], b[l], 0)) { for (std::size_t m = 0; m < V::size(); ++m) a[m] = T(2), b[m] = T(1); return; } } }
        else if (!dom(O, a[l], b[l], 0)) a[l] = b[l] = T(1);
    }
    if (O == o_hadd && (FP || (std::is_signed_v<T> && sizeof(T) >= 4)))
        for (std::size_t l = 0; l < V::size(); ++l) a[l] = static_cast<T>(static_cast<int>((k * 3 + l * 7) % 97) - (std::is_signed_v<T> ? 48 : 0));
}
template<class V, int O> struct table
{
    using R = std::array<T, V::size()>;
    static constexpr auto make()
    {
        std::array<R, NV * NV> t{};
        for (std::size_t k = 0; k < NV * NV; ++k)
        {
            T a[V::size()]{}, b[V::size()]{};
            operands<V, O>(k, a, b);
            if ((O == o_imin || O == o_imax) && !calc<V, o_any>::go(a, b)[0]) a[0] = T(1);
            t[k] = calc<V, O>::go(a, b);
        }
        return t;
    }
    static constexpr auto value = make();
};
template<class V, int O> MC_NOINLINE static std::array<T, V::size()> live(const T *a, const T *b) { return calc<V, O>::go(a, b); }

// Which of two zeros the extremum of a vector is, is open.
static bool same_ext(bool open, T g, T w) { return open && g == w; }
static bool same(T g, T w) { if constexpr (FP) return (nan(g) && nan(w)) || (g == w && std::signbit(g) == std::signbit(w)); else return g == w; }
template<class V, int O> static void one(const std::string &base)
{
    if (!site(base + NAME[O])) return;
    constexpr std::size_t N = V::size();
    std::uint64_t nt = 0;
    for (std::size_t k = 0; k < NV * NV; ++k)
    {
        T a[N], b[N];
        operands<V, O>(k, a, b);
        if (O == o_imin || O == o_imax) { bool any = false; for (T x : a) any |= bit(x); if (!any) a[0] = T(1); }
        const auto r = live<V, O>(a, b);
        ++ops; ++states;
        for (std::size_t i = 0; i < N; ++i)
        {
            const T w = model(O, a, b, N, i), c = table<V, O>::value[k][i];
            count(1, 0); nt += !(w == T(0));
            constexpr bool ext = O == o_rmin || O == o_rmax;
            if (!same(c, w) && !same_ext(ext, c, w)) fail("a = %s, b = %s lane %zu of %zu: constant evaluation gives %s, expected %s", str(a[i]), str(b[i]), i, N, str(c), str(w));
            if (!same(r[i], w) && !same_ext(ext, r[i], w)) fail("a = %s, b = %s lane %zu of %zu: run time gives %s, expected %s", str(a[i]), str(b[i]), i, N, str(r[i]), str(w));
        }
    }
    count(0, nt);
    sample("%zu operand vectors of %zu lanes", NV * NV, N);
}
template<class V> constexpr bool shuffles = array_storage<V> || sizeof(T) >= 4
#ifdef __SSSE3__
    || true
#endif
    ;
template<class V> static void all(const std::string &base)
{
    [&]<int... O>(std::integer_sequence<int, O...>) { ([&] { if constexpr (!(int_only(O) && FP) && !(fp_only(O) && !FP) && !(O == o_set && !array_storage<V>) && !((O == o_shuffle || O == o_mshuffle) && !shuffles<V>)) one<V, O>(base); }(), ...); }(std::make_integer_sequence<int, n_ops>{});
}
// constant initialisation of vectors with native storage: broadcasts and generators
template<class V, std::size_t K> struct init_b { static constexpr V value{VALS[K]}; };
template<class V, std::size_t K> struct init_g { static constexpr V value{[](auto i) { return VALS[(K + decltype(i)::value * 5) % NV]; }}; };
template<class M, bool B> struct init_m { static constexpr M value{B}; };
template<class M, std::size_t K> struct init_mg { static constexpr M value{[](auto i) { return (K >> (decltype(i)::value % 4) & 1) != (decltype(i)::value / 5 % 2); }}; };
// constant vectors of every ABI, inspected in constant expressions
template<class V, std::size_t K> struct init_s { static constexpr V value{[](auto i) { return static_cast<T>((K * 3 + decltype(i)::value * 7) % 11 + (decltype(i)::value == K)); }}; };
template<class T> constexpr T small_at(std::size_t k, std::size_t i) { return static_cast<T>((k * 3 + i * 7) % 11 + (i == k)); }
template<class V> struct Seen { std::array<T, V::size()> el{}, st{}, mst{}, cv{}; T sum{}, lo{}, hi{}, x{}, a{}, o{}; };
template<class V, std::size_t K> struct inspect
{
    static constexpr std::size_t N = V::size();
    static constexpr Seen<V> make()
    {
        constexpr auto &v = init_g<V, K>::value;
        constexpr auto &s = init_s<V, K>::value;
        Seen<V> r;
        for (std::size_t i = 0; i < N; ++i) r.el[i] = v[i];
        v.copy_to(r.st.data(), dpm::element_aligned);
        for (auto &e : r.mst) e = T(77);
        v.copy_to(r.mst.data(), init_mg<typename V::mask_type, K>::value, dpm::element_aligned);
        r.cv = elems<V>(static_cast<dpm::simd<T, pk<N>>>(v));
        r.sum = dpm::ext::hadd(s); r.lo = dpm::reduce_min(s); r.hi = dpm::reduce_max(s);
        if constexpr (!FP) { r.x = dpm::ext::hxor(s); r.a = dpm::ext::hand(s); r.o = dpm::ext::hor(s); }
        return r;
    }
    static constexpr Seen<V> value = make();
};
template<class M, std::size_t K> struct inspect_mask
{
    static constexpr std::size_t N = M::size();
    struct R { std::array<bool, N> el{}, st{}; bool all{}, any{}, none{}, some{}; std::size_t count{}, lo{}, hi{}; };
    static constexpr R make()
    {
        constexpr auto &m = init_mg<M, K>::value;
        R r;
        for (std::size_t i = 0; i < N; ++i) r.el[i] = m[i];
        m.copy_to(r.st.data(), dpm::element_aligned);
        r.all = dpm::all_of(m); r.any = dpm::any_of(m); r.none = dpm::none_of(m); r.some = dpm::some_of(m); r.count = dpm::reduce_count(m);
        if (r.any) r.lo = dpm::reduce_min_index(m), r.hi = dpm::reduce_max_index(m);
        return r;
    }
    static constexpr R value = make();
};
template<class V> static void inspected(const std::string &base)
{
    using M = typename V::mask_type;
    constexpr std::size_t N = V::size();
    std::uint64_t nt = 0;
    if (site(base + "constant vector"))
    {
        auto one = [&](const Seen<V> &r, std::size_t k)
        {
            ++ops; ++states;
            T sum = 0, lo = small_at<T>(k, 0), hi = lo, x = 0, a = lo, o = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                const T w = VALS[(k + i * 5) % NV], t = small_at<T>(k, i);
                const bool m = (k >> (i % 4) & 1) != (i / 5 % 2);
                count(4, 0); nt += !(w == T(0));
                if (!same(r.el[i], w)) fail("constant generator %zu lane %zu of %zu reads %s in a constant expression, expected %s", k, i, N, str(r.el[i]), str(w));
                if (!same(r.st[i], w)) fail("constant generator %zu lane %zu of %zu stores %s in a constant expression, expected %s", k, i, N, str(r.st[i]), str(w));
                if (!same(r.cv[i], w)) fail("constant generator %zu lane %zu of %zu converts to %s in a constant expression, expected %s", k, i, N, str(r.cv[i]), str(w));
                if (!same(r.mst[i], m ? w : T(77))) fail("constant generator %zu lane %zu of %zu: masked store leaves %s in a constant expression, expected %s", k, i, N, str(r.mst[i]), str(m ? w : T(77)));
                sum = static_cast<T>(sum + t); lo = t < lo ? t : lo; hi = hi < t ? t : hi;
                using B = std::conditional_t<FP, int, T>; x = static_cast<T>(B(x) ^ B(t)); a = static_cast<T>(B(a) & B(t)); o = static_cast<T>(B(o) | B(t));
            }
            auto red = [&](const char *n, T g, T w) { count(1, 0); nt += !(w == T(0)); if (!same(g, w) && !same_ext(true, g, w)) fail("constant generator %zu of %zu lanes: %s in a constant expression gives %s, expected %s", k, N, n, str(g), str(w)); };
            red("hadd", r.sum, sum); red("reduce_min", r.lo, lo); red("reduce_max", r.hi, hi);
            if constexpr (!FP) { red("hxor", r.x, x); red("hand", r.a, a); red("hor", r.o, o); }
        };
        [&]<std::size_t... K>(std::index_sequence<K...>) { (one(inspect<V, K>::value, K), ...); }(std::make_index_sequence<NV>{});
        count(0, nt); nt = 0; sample("%zu constant vectors of %zu lanes", NV, N);
    }
    if (site(base + "constant mask"))
    {
        auto one = [&](const auto &r, std::size_t k)
        {
            ++ops; ++states;
            std::size_t c = 0, lo = N, hi = 0;
            for (std::size_t i = 0; i < N; ++i)
            {
                const bool w = (k >> (i % 4) & 1) != (i / 5 % 2);
                count(2, 0); nt += w;
                if (r.el[i] != w || r.st[i] != w) fail("constant mask %zu lane %zu of %zu reads %d, stores %d in a constant expression, expected %d", k, i, N, r.el[i], r.st[i], w);
                if (w) { ++c; hi = i; if (lo == N) lo = i; }
            }
            count(1, c != 0 && c != N);
            if (r.all != (c == N) || r.any != (c != 0) || r.none != (c == 0) || r.some != (c != 0 && c != N) || r.count != c || (c && (r.lo != lo || r.hi != hi)))
                fail("constant mask %zu of %zu lanes (%zu true, %zu to %zu): all %d any %d none %d some %d count %zu min %zu max %zu", k, N, c, lo, hi, r.all, r.any, r.none, r.some, r.count, r.lo, r.hi);
        };
        [&]<std::size_t... K>(std::index_sequence<K...>) { (one(inspect_mask<M, K>::value, K), ...); }(std::make_index_sequence<16>{});
        count(0, nt); sample("16 constant masks of %zu lanes", N);
    }
}
template<class V> static void initialised(const std::string &base)
{
    using M = typename V::mask_type;
    constexpr std::size_t N = V::size();
    std::uint64_t nt = 0;
    auto judge = [&](const V &v, auto &&want, const char *what, std::size_t k)
    {
        ++ops; ++states;
        T g[N]; get(v, g);
        for (std::size_t i = 0; i < N; ++i) { const T w = want(i); count(1, 0); nt += !(w == T(0)); if (!same(g[i], w)) fail("constant initialised %s %zu lane %zu of %zu holds %s, expected %s", what, k, i, N, str(g[i]), str(w)); }
    };
    auto judgem = [&](const M &m, auto &&want, const char *what, std::size_t k)
    {
        ++ops; ++states;
        for (std::size_t i = 0; i < N; ++i) { const bool w = want(i), g = m[i]; count(1, 0); nt += w; if (g != w) fail("constant initialised %s %zu lane %zu of %zu holds %d, expected %d", what, k, i, N, g, w); }
    };
    if (site(base + "constinit broadcast"))
    {
        [&]<std::size_t... K>(std::index_sequence<K...>) { (judge(init_b<V, K>::value, [](std::size_t) { return VALS[K]; }, "broadcast", K), ...); }(std::make_index_sequence<NV>{});
        count(0, nt); nt = 0; sample("%zu values in %zu lanes", NV, N);
    }
    if (site(base + "constinit generator"))
    {
        [&]<std::size_t... K>(std::index_sequence<K...>) { (judge(init_g<V, K>::value, [](std::size_t i) { return VALS[(K + i * 5) % NV]; }, "generator", K), ...); }(std::make_index_sequence<NV>{});
        count(0, nt); nt = 0; sample("%zu generators for %zu lanes", NV, N);
    }
    if (site(base + "constinit mask"))
    {
        judgem(init_m<M, true>::value, [](std::size_t) { return true; }, "mask broadcast", 1);
        judgem(init_m<M, false>::value, [](std::size_t) { return false; }, "mask broadcast", 0);

        [&]<std::size_t... K>(std::index_sequence<K...>) { (judgem(init_mg<M, K>::value, [](std::size_t i) { return (K >> (i % 4) & 1) != (i / 5 % 2); }, "mask generator", K), ...); }(std::make_index_sequence<16>{});
        count(0, nt); nt = 0; sample("masks of %zu lanes", N);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
#if MC_PART == 0
    for_abis(abis<ab::scalar, pk<1>, pk<3>, pk<8>>{}, [&]<class A>() { all<dpm::simd<T, A>>(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/"); });
    for_abis(abi_list<T>::type{}, [&]<class A>() { const auto b = std::string(tn<T>()) + "/" + abi_name<A>::get() + "/"; initialised<dpm::simd<T, A>>(b); inspected<dpm::simd<T, A>>(b); });
#else
    constexpr std::size_t S = 16 / sizeof(T);
    using types = std::conditional_t<MC_PART == 1, abis<av<S, 16>, fx<S + 1>>, abis<av<3, 16>, av<2 * S - 1, 32>>>;
    for_abis(types{}, [&]<class A>() { all<dpm::simd<T, A>>(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/"); });
#endif
    return finish();
}
