// Conversions between simd types of equal size (simd_cast, static_simd_cast, converting construction, to_*), and the same for masks.
#include "conv.hpp"
using namespace mc;
using T = MC_T;
#ifndef MC_PART
#define MC_PART 0
#endif

template<class V, class W, int K> static auto convert(const V &v)
{
    if constexpr (K == 0) { const W w(v); return w; }
    else if constexpr (K == 1) return static_cast<W>(v);
    else if constexpr (K == 2) { W w = v; return w; }
    else if constexpr (K == 3) return dpm::simd_cast<W>(v);
    else if constexpr (K == 4) return dpm::static_simd_cast<W>(v);
    else if constexpr (K == 5) return dpm::simd_cast<typename W::value_type>(v);
    else if constexpr (K == 6) return dpm::static_simd_cast<typename W::value_type>(v);
    else if constexpr (K == 7) return dpm::to_fixed_size(v);
    else if constexpr (K == 8) return dpm::to_native(v);
    else return dpm::to_compatible(v);
}
static const char *const how[] = {"W(v)", "static_cast<W>", "W w = v", "simd_cast<W>", "static_simd_cast<W>", "simd_cast<U>", "static_simd_cast<U>", "to_fixed_size", "to_native", "to_compatible"};
template<class V, class W, int K, class E, class U> MC_NOINLINE static void thunk(const E *in, U *out)
{
    V v; putd(v, in);
    const auto w = convert<V, W, K>(v);
    static_assert(decltype(w)::size() == V::size());
    if constexpr (K == 0 || K == 3 || K == 4) static_assert(std::is_same_v<decltype(w), const W>);
    else if constexpr (K == 7) static_assert(std::is_same_v<typename decltype(w)::abi_type, dpm::simd_abi::fixed_size<V::size()>>);
    get(w, out);
}
template<class E, class U> static void sweep_cast(const std::string &name, std::size_t n, void (*f)(const E *, U *), const std::vector<box<E>> &al, U (*ref)(E))
{
    if (!site(name)) return;
    E in[128]; U out[128];
    std::uint64_t nt = 0;
    for (std::size_t k = 0; k < al.size(); ++k)
    {
        static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
        dirt = dd[k & 3];
        for (std::size_t i = 0; i < n; ++i) in[i] = static_cast<E>(al[(k + i) % al.size()]);
        f(in, out);
        for (std::size_t i = 0; i < n; ++i)
        {
            const U w = ref(in[i]);
            nt += !trivial_case(w);
            if (!same(out[i], w)) fail("%s in lane %zu of %zu became %s, expected %s", str(in[i]), i, n, str(out[i]), str(w));
        }
        ++ops;
    }
    dirt = 0xA5;
    states += al.size();
    count(al.size() * n, nt);
    sample("%s -> %s", str(in[0]), str(out[0]));
}
template<class U> static U ref_conv(T x) { return static_cast<U>(x); }

template<class V, class W, int K> static void one(const std::string &base)
{
    using U = typename W::value_type;
    static const auto al = conv_alphabet<T, U>();
    sweep_cast<T, U>(base + how[K], V::size(), &thunk<V, W, K, T, U>, al, &ref_conv<U>);
}
static void sweep_mask(const std::string &name, std::size_t n, void (*f)(const bool *, bool *))
{
    if (!site(name)) return;
    bool in[128], out[128]; std::uint64_t nt = 0;
    const auto pat = mask_patterns(n, 8);
    for (std::size_t k = 0; k < pat.size(); ++k)
    {
        static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
        dirt = dd[k & 3];
        for (std::size_t i = 0; i < n; ++i) in[i] = pat[k] >> i & 1;
        f(in, out);
        for (std::size_t i = 0; i < n; ++i) if (in[i] != out[i]) fail("mask 0x%llx: lane %zu of %zu became %d", (unsigned long long) pat[k], i, n, out[i]);
        nt += pat[k] != 0;
        ++ops;
    }
    dirt = 0xA5;
    states += pat.size(); count(pat.size(), nt);
    sample("%zu mask patterns", pat.size());
}
template<class V, class W, int K> static void one_mask(const std::string &base) { sweep_mask(base + how[K], V::size(), &thunk<V, W, K, bool, bool>); }

template<class V, class U, class B> static void target(const std::string &base)
{
    const auto b = base + "->" + tn<U>() + "/" + abi_name<B>::get() + " ";
#if MC_PART == 0
    using W = dpm::simd<U, B>;
    if constexpr (!std::is_same_v<V, W>) one<V, W, 0>(b);
    one<V, W, 2>(b);
    one<V, W, 3>(b);
    one<V, W, 4>(b);
#else
    using M = typename V::mask_type;
    using W = dpm::simd_mask<U, B>;
    if constexpr (!std::is_same_v<M, W>) one_mask<M, W, 0>(b + "mask ");
    one_mask<M, W, 2>(b + "mask ");
#endif
}
template<class V, class U> static void targets(const std::string &base)
{
    constexpr std::size_t N = V::size();
    using A = typename V::abi_type;
    target<V, U, A>(base);
    if constexpr (!std::is_same_v<A, fx<N>>) target<V, U, fx<N>>(base);
    if constexpr (!std::is_same_v<A, pk<N>>) target<V, U, pk<N>>(base);
    if constexpr (N == 1 && !std::is_same_v<A, ab::scalar>) target<V, U, ab::scalar>(base);
    if constexpr (N > 1 && !std::is_same_v<A, av<N, 32>>) target<V, U, av<N, 32>>(base);
#if MC_PART == 0
    using W = dpm::simd<U, A>;
    one<V, W, 5>(base + "->" + tn<U>() + " ");
    one<V, W, 6>(base + "->" + tn<U>() + " ");
    if constexpr (std::is_same_v<U, T>)
    {
        one<V, W, 7>(base + " ");
        if constexpr (dpm::native_simd<T>::size() == N) one<V, dpm::native_simd<T>, 8>(base + " ");
        if constexpr (dpm::simd<T>::size() == N) one<V, dpm::simd<T>, 9>(base + " ");
    }
#else
    if constexpr (std::is_same_v<U, T>)
    {
        using M = typename V::mask_type;
        one_mask<M, M, 7>(base + " mask ");
        if constexpr (dpm::native_simd<T>::size() == N) one_mask<M, dpm::native_simd_mask<T>, 8>(base + " mask ");
        if constexpr (dpm::simd<T>::size() == N) one_mask<M, dpm::simd_mask<T>, 9>(base + " mask ");
    }
#endif
}
template<class U, std::size_t S = sizeof(U)> struct lst;
template<class U> struct lst<U, 1> { using type = abis<ab::scalar, fx<5>, fx<16>, av<21, 16>, av<32, 32>, pk<3>>; };
template<class U> struct lst<U, 2> { using type = abis<ab::scalar, fx<5>, fx<8>, av<16, 32>, pk<3>>; };
template<class U> struct lst<U, 4> { using type = abis<ab::scalar, fx<3>, fx<4>, av<6, 16>, av<8, 32>, pk<3>>; };
template<class U> struct lst<U, 8> { using type = abis<ab::scalar, fx<2>, fx<3>, av<4, 32>, fx<7>>; };
int main(int argc, char **argv)
{
    init(argc, argv);
    for_abis(lst<T>::type{}, [&]<class A>()
    {
        const auto b = std::string(tn<T>()) + "/" + abi_name<A>::get();
        using V = dpm::simd<T, A>;
        targets<V, float>(b); targets<V, double>(b);
        targets<V, std::int8_t>(b); targets<V, std::uint8_t>(b); targets<V, std::int16_t>(b); targets<V, std::uint16_t>(b);
        targets<V, std::int32_t>(b); targets<V, std::uint32_t>(b); targets<V, std::int64_t>(b); targets<V, std::uint64_t>(b);
    });
    return finish();
}
