// blend(m, a, b) on simd and simd_mask; masks also written through their native data with any non-zero bits.
#include "eng.hpp"
using namespace mc;
using T = MC_T;
using MB = bits_of<T>::type; // bit pattern of a native mask element

// E: element of the blended vectors; kind 0: mask made of bools, kind 1: mask lanes given as raw bits through to_native_data
template<class M, class V, class E> MC_NOINLINE static void thunk(const MB *m, bool raw, const E *a, const E *b, E *o, bool *seen)
{
    M mk;
    if (!raw) { bool k[128]; for (std::size_t i = 0; i < M::size(); ++i) k[i] = m[i] != 0; putd(mk, k); }
    else
    {
        std::memset(static_cast<void *>(&mk), dirt, sizeof mk);
        auto sp = dpm::ext::to_native_data(mk);
        if constexpr (std::is_same_v<std::remove_reference_t<decltype(sp[0])>, bool>) for (std::size_t i = 0; i < M::size(); ++i) sp[i] = m[i] != 0;
        else std::memcpy(static_cast<void *>(sp.data()), m, M::size() * sizeof(MB));
    }
    V x, y; putd(x, a); putd(y, b);
    const M &cm = mk;
    for (std::size_t i = 0; i < M::size(); ++i) seen[i] = cm[i];
    const auto r = dpm::blend(cm, static_cast<const V &>(x), static_cast<const V &>(y));
    static_assert(std::is_same_v<decltype(r), const V>);
    get(r, o);
}
template<class E> using fn = void (*)(const MB *, bool, const E *, const E *, E *, bool *);
template<class E> static void run(const std::string &base, std::size_t n, fn<E> f)
{
    for (int raw = 0; raw < 2; ++raw)
    {
        if (!site(base + (raw ? " raw mask" : ""))) continue;
        std::vector<E> al;
        if constexpr (std::is_same_v<E, bool>) al = {false, true, true, false, true}; else { al = small_alphabet<E>(); if (tier) al = alphabet<E>(); }
        MB m[128]; E a[128], b[128], o[128]; bool seen[128];
        const std::vector<MB> rv = {MB(0), MB(~MB(0)), MB(1), MB(MB(1) << (8 * sizeof(MB) - 1)), MB(0x80), MB(~MB(0) >> 1), MB(MB(0xFF) << (8 * sizeof(MB) - 8)), MB(std::uint64_t(0x7fc000007fc00000)), MB(2)};
        std::uint64_t nt = 0;
        auto one = [&](std::size_t k)
        {
            static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
            dirt = dd[k & 3];
            f(m, raw, a, b, o, seen);
            dirt = 0xA5;
            ++ops; ++states; count(1, 0);
            bool t = false, u = false;
            for (std::size_t i = 0; i < n; ++i)
            {
                const E w = m[i] ? a[i] : b[i];
                if (m[i]) t = true; else u = true;
                if (!same(o[i], w)) fail("lane %zu of %zu: mask element 0x%llx, blend of %s and %s gave %s", i, n, (unsigned long long) m[i], str(a[i]), str(b[i]), str(o[i]));
                if (seen[i] != (m[i] != 0)) fail("lane %zu of %zu: mask element 0x%llx reads %d", i, n, (unsigned long long) m[i], seen[i]);
            }
            nt += t && u;
        };
        const auto pat = mask_patterns(n, 8);
        std::size_t k = 0;
        for (std::size_t p = 0; p < pat.size(); ++p)
            for (std::size_t s = 0; s < (tier ? al.size() : 3); ++s, ++k)
            {
                for (std::size_t i = 0; i < n; ++i)
                {
                    m[i] = pat[p] >> i & 1 ? (raw ? rv[1 + (i + k) % (rv.size() - 1)] : MB(1)) : MB(0);
                    a[i] = al[(i + k) % al.size()]; b[i] = al[(i * 3 + k + s + 1) % al.size()];
                }
                one(k);
            }
        // every pair of element values under both verdicts, every raw lane value in every lane
        for (std::size_t x = 0; x < al.size(); ++x)
            for (std::size_t y = 0; y < al.size(); ++y)
                for (std::size_t r = 0; r < (raw ? rv.size() : 2); ++r, ++k)
                {
                    for (std::size_t i = 0; i < n; ++i) { m[i] = raw ? rv[(r + i) % rv.size()] : MB((r + i) & 1); a[i] = al[(x + i) % al.size()]; b[i] = al[(y + i) % al.size()]; }
                    one(k);
                }
        count(0, nt);
        sample("%zu mask patterns over %zu lanes", pat.size(), n);
    }
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for_abis(abi_list<T>::type{}, [&]<class A>()
    {
        using V = dpm::simd<T, A>; using M = dpm::simd_mask<T, A>;
        const auto b = std::string(tn<T>()) + "/" + abi_name<A>::get() + "/";
        run<T>(b + "simd", A::size, &thunk<M, V, T>);
        run<bool>(b + "mask", A::size, &thunk<M, M, bool>);
    });
    if (site("scalar"))
    {
        const auto al = small_alphabet<T>();
        for (auto x : al) for (auto y : al) { ++states; ++ops; count(2, 2); if (!same<T>(dpm::blend(true, x, y), x) || !same<T>(dpm::blend(false, x, y), y)) fail("blend(bool, %s, %s)", str(x), str(y)); }
    }
    return finish();
}
