// Functions forwarded to SVML: the routines are stand-ins returning a value that identifies the routine and its operands (MC_SVML_TAG).
#include "eng.hpp"
#include <dpm/math.hpp>
using namespace mc;
using T = MC_T;
#define UN(NAME) struct o_##NAME { static constexpr int arity = 1; template<class V> static auto f(const V &x) { return dpm::NAME(x); } }; static T r_##NAME(T x, T, T) { return mc_svml::tag(mc_svml::NAME, x); }
#define BI(NAME) struct o_##NAME { static constexpr int arity = 2; template<class V> static auto f(const V &a, const V &b) { return dpm::NAME(a, b); } }; static T r_##NAME(T a, T b, T) { return mc_svml::tag(mc_svml::NAME, a, b); }
UN(exp) UN(exp2) UN(expm1) UN(log) UN(log2) UN(log10) UN(log1p) UN(sin) UN(cos) UN(tan) UN(asin) UN(acos) UN(atan)
UN(sinh) UN(cosh) UN(tanh) UN(asinh) UN(acosh) UN(atanh) UN(erf) UN(erfc) UN(cbrt) UN(logb) BI(pow) BI(atan2)
struct o_sincos_s { static constexpr int arity = 1; template<class V> static auto f(const V &x) { V s, c; std::memset(static_cast<void *>(&s), 0xA5, sizeof s); dpm::ext::sincos(x, s, c); return s; } };
struct o_sincos_c { static constexpr int arity = 1; template<class V> static auto f(const V &x) { V s, c; std::memset(static_cast<void *>(&c), 0xA5, sizeof c); dpm::ext::sincos(x, s, c); return c; } };
// the vector types that have an x86 implementation
using X86 = abis<fx<2>, fx<3>, fx<4>, fx<5>, fx<8>, fx<9>, fx<17>, fx<32>, fx<33>, av<2, 16>, av<4, 16>, av<7, 16>, av<8, 32>, av<4, 32>, av<11, 32>, av<6, 64>>;
template<class OP, class... As> static void every(abis<As...>, const char *name, ref3<T, T> ref, const std::vector<Tup<T>> &cs)
{
    (sweep<T, T>(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/" + name, dpm::simd<T, As>::size(), OP::arity, &thunk<dpm::simd<T, As>, OP, T, T>, ref, cs), ...);
}
template<class... As> static void scalar_pow(abis<As...>)
{
    ([&] {
        using V = dpm::simd<T, As>;
        if (!site(std::string(tn<T>()) + "/" + abi_name<As>::get() + "/pow_scalar")) return;
        const auto al = alphabet<T>();
        const std::size_t m = al.size(), N = V::size();
        T a[128], o[128];
        for (std::size_t j = 0; j < m; ++j)
            for (std::size_t k = 0; k < m; k += N)
            {
                V x;
                for (std::size_t i = 0; i < N; ++i) a[i] = al[(k + i) % m];
                putd(x, a);
                const V r = dpm::pow(x, al[j]);
                get(r, o);
                for (std::size_t i = 0; i < N; ++i)
                {
                    const T w = mc_svml::tag(mc_svml::pow, a[i], al[j]);
                    if (!same(o[i], w)) fail("(%s, %s) lane %zu of %zu: got %s, expected %s", str(a[i]), str(al[j]), i, N, str(o[i]), str(w));
                }
                ++ops; ++states;
                count(N, N);
            }
    }(), ...);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    std::vector<Tup<T>> u, b;
    const auto al = alphabet<T>();
    for (auto x : al) u.push_back({x, x, x});
    for (auto x : al) for (auto y : al) b.push_back({x, y, x});
#define U1(NAME) every<o_##NAME>(X86{}, #NAME, r_##NAME, u);
#define B2(NAME) every<o_##NAME>(X86{}, #NAME, r_##NAME, b);
    U1(exp) U1(exp2) U1(expm1) U1(log) U1(log2) U1(log10) U1(log1p) U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan)
    U1(sinh) U1(cosh) U1(tanh) U1(asinh) U1(acosh) U1(atanh) U1(erf) U1(erfc) U1(cbrt) U1(logb) B2(pow) B2(atan2)
    every<o_sincos_s>(X86{}, "sincos.sin", r_sin, u);
    every<o_sincos_c>(X86{}, "sincos.cos", r_cos, u);
    scalar_pow(X86{});
    return finish();
}
