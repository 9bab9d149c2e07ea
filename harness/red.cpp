// Reductions of element values: every lane must enter the result exactly once and nothing else may.
// PART 0: the usual vector types; PART 1, 2: 16-byte and 32-byte vectors with every number of used elements in the
// last register, by a shorter sweep.
#include "eng.hpp"
#include <functional>
#include <numeric>
using namespace mc;
using T = MC_T;
constexpr bool FP = std::is_floating_point_v<T>;
using L = std::numeric_limits<T>;

enum { o_plus, o_plusT, o_hadd, o_mul, o_mulT, o_hmul, o_min, o_max, o_lmin, o_lmax, o_last, o_and = o_last, o_or, o_xor, o_hand, o_hor, o_hxor, o_custom, n_ops };
static const char *const op_name[] = {"reduce(plus<>)", "reduce(plus<T>)", "hadd", "reduce(multiplies<>)", "reduce(multiplies<T>)", "hmul", "reduce_min", "reduce_max", "reduce(min)", "reduce(max)", "reduce(bit_and)", "reduce(bit_or)", "reduce(bit_xor)", "hand", "hor", "hxor", "reduce(a^b^k)"};
constexpr T K = static_cast<T>(0x5a);


template<class V, class T> MC_NOINLINE static T call(int o, const T *p)
{
    V v; putd(v, p);
    const V c = v;
    switch (o)
    {
#if !MC_PART
        case o_plus: return dpm::reduce(c);
        case o_plusT: return dpm::reduce(c, std::plus<T>{});
        case o_mul: return dpm::reduce(c, std::multiplies<>{});
        case o_mulT: return dpm::reduce(c, std::multiplies<T>{});
        case o_lmin: return dpm::reduce(c, [](T a, T b) -> T { return b < a ? b : a; });
        case o_lmax: return dpm::reduce(c, [](T a, T b) -> T { return a < b ? b : a; });
#endif
        case o_hadd: return dpm::ext::hadd(c);
        case o_hmul: return dpm::ext::hmul(c);
        case o_min: return dpm::reduce_min(c);
        case o_max: return dpm::reduce_max(c);
        default: break;
    }
    if constexpr (!std::is_floating_point_v<T>)
        switch (o)
        {
            case o_and: return dpm::reduce(c, std::bit_and<>{});
            case o_or: return dpm::reduce(c, std::bit_or<>{});
            case o_hxor: return dpm::ext::hxor(c);
#if !MC_PART
            case o_xor: return dpm::reduce(c, std::bit_xor<T>{});
            case o_hand: return dpm::ext::hand(c);
            case o_hor: return dpm::ext::hor(c);
            case o_custom: return dpm::reduce(c, [](T a, T b) -> T { return static_cast<T>(a ^ b ^ (T) K); });
#endif
            default: break;
        }
    return T{};
}
template<class T> static T ref(int o, const T *p, std::size_t n)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        T r = p[0];
        for (std::size_t i = 1; i < n; ++i)
            switch (o)
            {
                case o_plus: case o_plusT: case o_hadd: r += p[i]; break;
                case o_mul: case o_mulT: case o_hmul: r *= p[i]; break;
                case o_min: case o_lmin: r = p[i] < r ? p[i] : r; break;
                default: r = r < p[i] ? p[i] : r; break;
            }
        return r;
    }
    else
    {
        using U = std::make_unsigned_t<T>;
        T r = p[0];
        for (std::size_t i = 1; i < n; ++i)
            switch (o)
            {
                case o_plus: case o_plusT: case o_hadd: r = static_cast<T>(U(std::uint64_t(U(r)) + U(p[i]))); break;
                case o_mul: case o_mulT: case o_hmul: r = static_cast<T>(U(std::uint64_t(U(r)) * U(p[i]))); break;
                case o_min: case o_lmin: r = p[i] < r ? p[i] : r; break;
                case o_max: case o_lmax: r = r < p[i] ? p[i] : r; break;
                case o_and: case o_hand: r &= p[i]; break;
                case o_or: case o_hor: r |= p[i]; break;
                case o_xor: case o_hxor: r ^= p[i]; break;
                default: r = static_cast<T>(r ^ p[i] ^ K); break;
            }
        return r;
    }
}
// does the reduction stay inside the domain of the property (order of combination must not matter, no signed overflow)?
template<class T> static bool in_domain(int o, const T *p, std::size_t n)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        using L = std::numeric_limits<T>;
        if (o >= o_min) { for (std::size_t i = 0; i < n; ++i) if (p[i] != p[i]) return false; return true; }
        if (o >= o_mul)
        {
            // every partial product is exact and neither overflows nor underflows
            int lo = 0, hi = 0; long double odd = 1;
            for (std::size_t i = 0; i < n; ++i)
            {
                if (p[i] != p[i] || p[i] == 0 || std::isinf(p[i])) continue;
                int k; long double f = std::fabs(std::frexp(p[i], &k));
                if (k > 0) hi += k; else lo += k - 1;
                while (f != std::floor(f)) f *= 2;
                odd *= f;
                if (odd > std::ldexp(1.0L, L::digits)) return false;
            }
            return hi < L::max_exponent - 1 && lo > L::min_exponent;
        }
        T s = 0; for (std::size_t i = 0; i < n; ++i) if (p[i] == p[i] && !std::isinf(p[i])) { if (p[i] != std::trunc(p[i]) || std::fabs(p[i]) > T(100000)) return false; s += std::fabs(p[i]); }
        return true;
    }
    else
    {
        using L = std::numeric_limits<T>;
        if (o >= o_min || sizeof(T) < 4 || !std::is_signed_v<T>) return true;
        if (o >= o_mul) { __int128 m = 1; for (std::size_t i = 0; i < n; ++i) { __int128 a = p[i]; if (a < 0) a = -a; if (a > 1) m *= a; if (m > L::max()) return false; } return true; }
        __int128 s = 0; for (std::size_t i = 0; i < n; ++i) { __int128 a = p[i]; s += a < 0 ? -a : a; }
        return s <= L::max();
    }
}
static bool ok(int o, T g, T w)
{
    if constexpr (FP) { if (w != w) return g != g; return g == w; }  // the sign of a zero result depends on the order
    else return g == w;
}
static T identity(int o)
{
    switch (o)
    {
        case o_mul: case o_mulT: case o_hmul: return T(1);
        case o_min: case o_lmin: return FP ? L::infinity() : L::max();
        case o_max: case o_lmax: return FP ? -L::infinity() : L::lowest();
        case o_and: case o_hand: return static_cast<T>(-1);
        default: return T(0);
    }
}
template<class T> static std::vector<T> values(int o)
{
    std::vector<T> v;
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
    {
        if (o >= o_min) { v = {T(0), -T(0), T(1), T(-1), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::min(), L::denorm_min(), -L::denorm_min(), T(2.5), T(-1e10)}; return v; }
        if (o >= o_mul) return {T(1), T(2), T(0.5), T(-1), T(-4), T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), T(3), T(5)};
        return {T(0), T(1), T(-1), T(2), T(100), T(-7), T(65536), L::infinity(), -L::infinity(), L::quiet_NaN()};
    }
    else
    {
        if (o >= o_min) { v = small_alphabet<T>(); push_unique(v, static_cast<T>(L::min() + 1)); push_unique(v, static_cast<T>(L::max() - 1)); push_unique(v, static_cast<T>(0x8000)); push_unique(v, static_cast<T>(0x7fff)); push_unique(v, static_cast<T>(0xff00)); push_unique(v, static_cast<T>(0x80000000ull)); push_unique(v, static_cast<T>(0xffffffffull)); return v; }
        v = small_alphabet<T>();
        for (int x : {3, 4, 6, 7, -2, 16, 100}) push_unique(v, static_cast<T>(x));
        return v;
    }
}
static void judge(int o, T (*fn)(int, const T *), const T *p, std::size_t n, std::uint64_t &nt)
{
    if (!in_domain(o, p, n)) return;
    static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
    dirt = dd[ops & 3];
    const T g = fn(o, p), w = ref(o, p, n);
    dirt = 0xA5;
    ++ops; ++states; count(1, 0);
    nt += !(w == identity(o));
    if (ok(o, g, w)) return;
    std::string s; for (std::size_t i = 0; i < n; ++i) s += std::string(i ? ", " : "") + str(p[i]);
    fail("%s{%s} gave %s, expected %s", op_name[o], s.c_str(), str(g), str(w));
}
static void run(const std::string &base, std::size_t n, T (*fn)(int, const T *))
{
    for (int o = 0; o < (FP ? int(o_last) : int(n_ops)); ++o)
    {
        if (MC_PART && !(o == o_hadd || o == o_hmul || o == o_min || o == o_max || o == o_and || o == o_or || o == o_hxor)) continue;
        if (!site(base + op_name[o])) continue;
        const auto al = values<T>(o);
        const T id = identity(o);
        T p[128]; std::uint64_t nt = 0;
        if (MC_PART)
        {
            for (T bg : {id, al[al.size() - 1]})
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t a = 0; a < al.size(); ++a)
                        for (int d = 0; d < 4; ++d)
                        {
                            for (std::size_t k = 0; k < n; ++k) p[k] = bg;
                            p[i] = al[a];
                            judge(o, fn, p, n, nt);
                        }
            count(0, nt);
            sample("%s over %zu lanes", op_name[o], n);
            continue;
        }
        // all vectors over the values for up to 3 lanes (4 with few values)
        double tot = 1; for (std::size_t i = 0; i < n; ++i) tot *= al.size();
        if (tot <= (tier ? 200000 : 5000))
        {
            std::size_t ix[128] = {};
            for (;;)
            {
                for (std::size_t i = 0; i < n; ++i) p[i] = al[ix[i]];
                judge(o, fn, p, n, nt);
                std::size_t k = 0; while (k < n && ++ix[k] == al.size()) ix[k++] = 0;
                if (k == n) break;
            }
        }
        // background + every single lane, every pair of lanes
        for (T bg : {id, al[1 % al.size()], al[al.size() - 1]})
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = i; j < n; ++j)
                    for (std::size_t a = 0; a < al.size(); ++a)
                        for (std::size_t b = 0; b < (i == j ? 1 : n <= 4 || tier ? al.size() : 2); ++b)
                        {
                            for (std::size_t k = 0; k < n; ++k) p[k] = bg;
                            p[i] = al[a]; if (i != j) p[j] = al[(a + b + 1) % al.size()];
                            judge(o, fn, p, n, nt);
                        }
        // all lanes different
        for (std::size_t k = 0; k < 3 * al.size(); ++k)
        {
            for (std::size_t i = 0; i < n; ++i) p[i] = al[(k + i * (1 + k / al.size())) % al.size()];
            judge(o, fn, p, n, nt);
            for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<T>(FP ? int((k * 7 + i * i * 3 + i) % 97) - 48 : int((k * 7 + i * i * 3 + i) % 97));
            judge(o, fn, p, n, nt);
        }
        count(0, nt);
        sample("%s over %zu lanes", op_name[o], n);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
#if MC_PART == 0
    using types = abi_list<T>::type;
#else
    using types = abi_residue<T, MC_PART * 16>::type;
#endif
    for_abis(types{}, [&]<class A>() { run(std::string(tn<T>()) + "/" + abi_name<A>::get() + "/", A::size, &call<dpm::simd<T, A>, T>); });
    return finish();
}
