// Memory: loads, stores, masked loads and stores, constructors, element access, native storage.
#include "eng.hpp"
#include "conv.hpp"
#include "guard.hpp"
using namespace mc;
using T = MC_T;
template<std::size_t N> using ov = dpm::overaligned_tag<N>;
template<class F> struct fl;
template<> struct fl<dpm::element_aligned_tag> { static std::string name() { return "elem"; } template<class V, class U> static std::size_t al() { return alignof(U); } };
template<> struct fl<dpm::vector_aligned_tag> { static std::string name() { return "vec"; } template<class V, class U> static std::size_t al() { return std::max<std::size_t>(dpm::memory_alignment_v<V, U>, alignof(U)); } };
template<std::size_t N> struct fl<ov<N>> { static std::string name() { return "over" + std::to_string(N); } template<class V, class U> static std::size_t al() { return std::max(N, alignof(U)); } };

static std::vector<uc *> positions(std::size_t al, std::size_t us, std::size_t n)
{
    auto &a = arena();
    std::vector<uc *> r;
    r.push_back((uc *) ((std::uintptr_t) (a.hi - n * us) / al * al));
    r.push_back(a.lo);
    if (al <= us) for (int k = 1; k <= 3; ++k) r.push_back(a.lo + 64 + k * us);
    return r;
}
// thunks
template<class V, class U, class F> static void t_ld(const U *m, typename V::value_type *o1, typename V::value_type *o2)
{
    alignas(V) uc s[sizeof(V)];
    V v; std::memset(static_cast<void *>(&v), 0xA5, sizeof v); std::memset(s, 0x5A, sizeof s);
    v.copy_from(m, F{}); get(v, o1);
    V *w = new (s) V(m, F{}); get(*w, o2);
}
template<class V, class U, class F> static void t_st(const typename V::value_type *p, U *m) { V v; putd(v, p); v.copy_to(m, F{}); }
template<class V, class U, class F> static void t_mld(const U *m, const bool *k, typename V::value_type *io, typename V::value_type *o2)
{
    using M = typename V::mask_type;
    M mk; putd(mk, k);
    V v; putd(v, io);
    v.copy_from(m, mk, F{}); get(v, io);
    alignas(V) uc s[sizeof(V)] = {};
    V *w = new (s) V(m, mk, F{}); get(*w, o2);
}
template<class V, class U, class F> static void t_mst(const typename V::value_type *p, const bool *k, U *m)
{
    using M = typename V::mask_type;
    M mk; putd(mk, k);
    V v; putd(v, p);
    v.copy_to(m, mk, F{});
}
template<class E, class U> static void load_store(const std::string &base, const std::string &tail, std::size_t n, std::size_t al, void (*ld)(const U *, E *, E *), void (*st)(const E *, U *))
{
    auto &ar = arena();
    static const auto ua = conv_alphabet<U, E>();
    static const auto ea = conv_alphabet<E, U>();
    if (site(base + "/load/" + tail))
        for (auto *p : positions(al, sizeof(U), n))
            for (std::size_t k = 0; k < ua.size(); ++k)
            {
                ar.paint(p, n * sizeof(U));
                U *m = reinterpret_cast<U *>(p);
                for (std::size_t i = 0; i < n; ++i) m[i] = ua[(k + i) % ua.size()];
                E g1[128], g2[128];
                const int sig = guarded([&] { ld(m, g1, g2); });
                count(2 * n, n); ++states; ops += 2;
                if (sig) { fail("signal %d while loading %zu elements at offset %td", sig, n, p - ar.lo); continue; }
                for (std::size_t i = 0; i < n; ++i)
                {
                    const E want = conv<U, E>(m[i]);
                    if (!same(g1[i], want)) fail("copy_from lane %zu of %zu: memory %s, loaded %s, expected %s", i, n, str(m[i]), str(g1[i]), str(want));
                    if (!same(g2[i], want)) fail("constructor lane %zu of %zu: memory %s, loaded %s, expected %s", i, n, str(m[i]), str(g2[i]), str(want));
                }
                if (k == 1) sample("load of %zu elements from %s gave lane0=%s", n, str(m[0]), str(g1[0]));
            }
    if (site(base + "/store/" + tail))
        for (auto *p : positions(al, sizeof(U), n))
            for (std::size_t k = 0; k < ea.size(); ++k)
            {
                ar.paint(p, n * sizeof(U));
                U *m = reinterpret_cast<U *>(p);
                E vals[128];
                for (std::size_t i = 0; i < n; ++i) vals[i] = ea[(k + i) % ea.size()];
                const int sig = guarded([&] { st(vals, m); });
                count(n, n); ++states; ++ops;
                if (sig) { fail("signal %d while storing %zu elements at offset %td", sig, n, p - ar.lo); continue; }
                for (std::size_t i = 0; i < n; ++i)
                {
                    const U want = conv<E, U>(vals[i]);
                    if (!same(m[i], want)) fail("copy_to lane %zu of %zu: value %s, stored %s, expected %s", i, n, str(vals[i]), str(m[i]), str(want));
                }
                if (auto *c = ar.spoiled(p, n * sizeof(U))) fail("store of %zu elements wrote byte %td outside the range (offset %td)", n, c - p, p - ar.lo);
            }
}
template<class E, class U> static void masked(const std::string &base, const std::string &tail, std::size_t n, std::size_t al, void (*ld)(const U *, const bool *, E *, E *), void (*st)(const E *, const bool *, U *))
{
    auto &ar = arena();
    const auto pats = mask_patterns(n, 8);
    static const auto ua = conv_alphabet<U, E>();
    static const auto ea = conv_alphabet<E, U>();
    const auto pos = positions(al, sizeof(U), n);
    for (int kind = 0; kind < 2; ++kind)
    {
        if (!site(base + (kind ? "/mstore/" : "/mload/") + tail)) continue;
        auto run = [&](std::uint64_t bm, uc *p, std::size_t k, bool partial)
        {
            U *m = reinterpret_cast<U *>(p);
            bool mk[128];
            E vals[128], old[128], o2[128];
            ar.paint(p < ar.lo ? ar.lo : p, std::min<std::ptrdiff_t>(n * sizeof(U), ar.hi - (p < ar.lo ? ar.lo : p)));
            for (std::size_t i = 0; i < n; ++i)
            {
                mk[i] = bm >> i & 1;
                vals[i] = ea[(k + i) % ea.size()]; old[i] = ea[(k + 3 * i + 1) % ea.size()];
                const auto *q = p + i * sizeof(U);
                if (kind == 0 && q >= ar.lo && q + sizeof(U) <= ar.hi) m[i] = ua[(k + i) % ua.size()];
            }
            static constexpr uc dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
            dirt = dd[k & 3];
            count(n, n); ++states; ++ops;
            if (kind == 0)
            {
                std::memcpy(vals, old, sizeof vals);
                const int sig = guarded([&] { ld(m, mk, vals, o2); });
                dirt = 0xA5;
                if (sig) { fail("signal %d: masked load (mask 0x%llx) accessed an unselected element%s", sig, (unsigned long long) bm, partial ? " in an inaccessible page" : ""); return; }
                for (std::size_t i = 0; i < n; ++i)
                {
                    const E want = mk[i] ? E(conv<U, E>(m[i])) : old[i];
                    if (!same(vals[i], want)) fail("masked load mask 0x%llx lane %zu: got %s expected %s", (unsigned long long) bm, i, str(vals[i]), str(want));
                    if (mk[i] && !same(o2[i], want)) fail("masked constructor mask 0x%llx lane %zu: got %s expected %s", (unsigned long long) bm, i, str(o2[i]), str(want));
                }
            }
            else
            {
                const int sig = guarded([&] { st(vals, mk, m); });
                dirt = 0xA5;
                if (sig) { fail("signal %d: masked store (mask 0x%llx) accessed an unselected element%s", sig, (unsigned long long) bm, partial ? " in an inaccessible page" : ""); return; }
                for (std::size_t i = 0; i < n; ++i)
                    if (mk[i] && !same(m[i], U(conv<E, U>(vals[i])))) fail("masked store mask 0x%llx lane %zu: value %s stored %s expected %s", (unsigned long long) bm, i, str(vals[i]), str(m[i]), str(U(conv<E, U>(vals[i]))));
                for (uc *c = std::max(ar.lo, p - 256); c < std::min(ar.hi, p + n * sizeof(U) + 256); ++c)
                    if (*c != 0xC3)
                    {
                        const auto off = c - p;
                        if (off >= 0 && off < std::ptrdiff_t(n * sizeof(U)) && (bm >> (off / sizeof(U)) & 1)) continue;
                        fail("masked store mask 0x%llx wrote byte %td of an unselected element", (unsigned long long) bm, off);
                        break;
                    }
            }
        };
        for (std::size_t j = 0; j < pats.size(); ++j) { run(pats[j], pos[0], j, false); run(pats[j], pos[1], j + 1, false); if (pos.size() > 2) run(pats[j], pos[2 + j % 3], j + 2, false); }
        const std::uint64_t all = n >= 64 ? ~0ull : (1ull << n) - 1;
        for (std::size_t k = 0; k <= n; ++k)
        {
            if ((k * sizeof(U)) % al == 0) run((1ull << k) - 1, ar.hi - k * sizeof(U), k, true);
            if ((k * sizeof(U)) % al == 0) run(all & ~((1ull << k) - 1), ar.lo - k * sizeof(U), k, true);
        }
    }
}
template<class V, class U, class F> static void ls(const std::string &b)
{
    using E = typename V::value_type;
    load_store<E, U>(b, std::string(tn<U>()) + "/" + fl<F>::name(), V::size(), fl<F>::template al<V, U>(), &t_ld<V, U, F>, &t_st<V, U, F>);
}
template<class V, class U, class F> static void ms(const std::string &b)
{
    using E = typename V::value_type;
    masked<E, U>(b, std::string(tn<U>()) + "/" + fl<F>::name(), V::size(), fl<F>::template al<V, U>(), &t_mld<V, U, F>, &t_mst<V, U, F>);
}
template<class V> static void access(const std::string &base)
{
    constexpr std::size_t N = V::size();
    using E = typename V::value_type;
    std::vector<box<E>> al;
    if constexpr (std::is_same_v<E, bool>) al = {1, 0}; else al = alphabet<E>();
    if (site(base + "/broadcast"))
        for (auto x : al)
        {
            const V v = E(x); count(N, N); ++states; ++ops;
            for (std::size_t i = 0; i < N; ++i) if (!same(E(v[i]), E(x))) fail("broadcast of %s gave lane %zu = %s", str(E(x)), i, str(E(v[i])));
        }
    if (site(base + "/generator"))
        for (std::size_t k = 0; k < al.size(); ++k)
        {
            std::size_t calls[N] = {}, past = 0;
            const V v([&](auto i) -> E { if (std::size_t(i) >= N) return ++past, E{}; ++calls[i]; return (E) al[(k + i) % al.size()]; });
            count(N, N); ++states; ++ops;
            for (std::size_t i = 0; i < N; ++i) if (!same(E(v[i]), (E) al[(k + i) % al.size()])) fail("generator lane %zu = %s, expected %s", i, str(E(v[i])), str(E(al[(k + i) % al.size()])));
            for (std::size_t i = 0; i < N; ++i) if (calls[i] != 1) fail("generator called %zu times for lane %zu", calls[i], i);
            if (past) fail("generator called with %zu indices past the last lane", past);
        }
    if (site(base + "/constant generator"))   // the index is usable as a constant
    {
        const V v([](auto i) -> E { constexpr std::size_t I = decltype(i)::value; return static_cast<E>((I * 7 + 3) % 5 / 2); });
        count(N, N); ++states; ++ops;
        for (std::size_t i = 0; i < N; ++i) if (!same(E(v[i]), static_cast<E>((i * 7 + 3) % 5 / 2))) fail("generator lane %zu = %s, expected %s", i, str(E(v[i])), str(static_cast<E>((i * 7 + 3) % 5 / 2)));
    }
    if (site(base + "/subscript"))
        for (std::size_t l = 0; l < N; ++l)
            for (std::size_t k = 0; k < al.size(); ++k)
            {
                E vals[N], g1[N], g2[N], g3[N];
                for (std::size_t i = 0; i < N; ++i) vals[i] = al[(k * 7 + i * 3) % al.size()];
                V v; putd(v, vals);
                v[l] = (E) al[k];
                const V c = v;
                V d; dirty(d); d = c;
                get(c, g1); get(v, g2); get(d, g3);
                count(N, N); ++states; ++ops;
                for (std::size_t i = 0; i < N; ++i)
                {
                    const E want = i == l ? (E) al[k] : vals[i];
                    if (!same(g1[i], want) || !same(g2[i], want) || !same(g3[i], want)) fail("after writing lane %zu, lane %zu reads %s, expected %s", l, i, str(g1[i]), str(want));
                }
            }
}
template<class V, class E> static void native(const std::string &base)
{
    constexpr std::size_t N = V::size();
    if (!site(base + "/native")) return;
    std::vector<box<E>> al;
    if constexpr (std::is_same_v<E, bool>) al = {1, 0, 0}; else al = alphabet<E>();
    for (std::size_t k = 0; k < al.size(); ++k)
    {
        E vals[N], o[N];
        for (std::size_t i = 0; i < N; ++i) vals[i] = al[(k + i) % al.size()];
        V v; putd(v, vals);
        auto sp = dpm::ext::to_native_data(v);
        const V &cv = v;
        auto csp = dpm::ext::to_native_data(cv);
        using NT = dpm::ext::native_data_type_t<V>;
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(sp[0])>, NT>);
        count(N, N); ++states; ++ops;
        if (sp.size() != dpm::ext::native_data_size_v<V> || csp.size() != sp.size() || sp.data() != csp.data() || (void *) sp.data() != (void *) &v)
            fail("native span has %zu elements, trait says %zu", sp.size(), (std::size_t) dpm::ext::native_data_size_v<V>);
        // lane i is the i-th element of the array of native vectors, for reading and for writing
        using NE = std::conditional_t<std::is_same_v<E, bool>, std::conditional_t<std::is_same_v<NT, bool>, bool, typename bits_of<T>::type>, E>;
        static_assert(sizeof(NT) % sizeof(NE) == 0);
        NE raw[sizeof(V) / sizeof(NE)];
        std::memcpy(raw, (const void *) csp.data(), csp.size() * sizeof(NT));
        for (std::size_t i = 0; i < N; ++i)
            if (std::is_same_v<E, bool> ? (raw[i] != NE(0)) != vals[i] : !same((E) raw[i], vals[i])) fail("lane %zu = %s is not element %zu of the native data", i, str(vals[i]), i);
        for (std::size_t i = 0; i < N; ++i) { if constexpr (std::is_same_v<E, bool>) raw[i] = vals[N - 1 - i] ? static_cast<NE>(~0ull) : NE(0); else raw[i] = vals[N - 1 - i]; }
        {
            V x = v;
            auto xsp = dpm::ext::to_native_data(x);
            std::memcpy((void *) xsp.data(), raw, xsp.size() * sizeof(NT));
            get(x, o);
            for (std::size_t i = 0; i < N; ++i) if (!same(o[i], vals[N - 1 - i])) fail("lane %zu written through native data reads %s, expected %s", i, str(o[i]), str(vals[N - 1 - i]));
        }
        V w; dirty(w);
        auto wsp = dpm::ext::to_native_data(w);
        for (std::size_t i = 0; i < wsp.size(); ++i) wsp[i] = csp[i];
        auto chk = [&](const V &x, const char *what) { get(x, o); for (std::size_t i = 0; i < N; ++i) if (!same(o[i], vals[i])) fail("vector %s: lane %zu = %s expected %s", what, i, str(o[i]), str(vals[i])); };
        chk(w, "rebuilt from native data");
        if constexpr (!std::is_same_v<E, NT>)
        {
            NT arr[dpm::ext::native_data_size_v<V>];
            for (std::size_t i = 0; i < csp.size(); ++i) arr[i] = csp[i];
            if constexpr (dpm::ext::native_data_size_v<V> > 1)
            {
                const V s(std::span<const NT, dpm::ext::native_data_size_v<V>>(csp.data(), csp.size())); chk(s, "constructed from native span");
                const V a(arr); chk(a, "constructed from native array");
            }
            else { const V f = arr[0]; chk(f, "constructed from one native vector"); }
        }
    }
}
// broadcasting construction from a scalar of another arithmetic type
template<class V> static void broadcasts(const std::string &base)
{
    [&]<class... Us>(abis<Us...>)
    {
        (([&] {
            if constexpr (std::is_constructible_v<V, Us>)
            {
                if (!site(base + "/broadcast from " + tn<Us>())) return;
                for (auto x : conv_alphabet<Us, T>())
                {
                    const V v(static_cast<Us>(x)); ++states; ++ops; count(V::size(), V::size());
                    const T w = conv<Us, T>(x);
                    for (std::size_t i = 0; i < V::size(); ++i) if (!same(T(v[i]), w)) fail("broadcast of %s gave lane %zu = %s, expected %s", str(x), i, str(T(v[i])), str(w));
                }
            }
        }()), ...);
    }(abis<float, double, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>{});
}
int main(int argc, char **argv)
{
    init(argc, argv);
    using el = dpm::element_aligned_tag;
    using va = dpm::vector_aligned_tag;
#if MC_PART != 1
    for_abis(typename abi_list<T>::type{}, []<class A>()
    {
        using V = dpm::simd<T, A>;
        using M = dpm::simd_mask<T, A>;
        const std::string b = std::string(tn<T>()) + "/" + abi_name<A>::get();
#if MC_PART == 0
        ls<V, T, el>(b); ls<V, T, va>(b); ls<V, T, ov<64>>(b); ls<V, T, ov<8>>(b);
        ls<M, bool, el>(b + "/mask"); ls<M, bool, va>(b + "/mask"); ls<M, bool, ov<32>>(b + "/mask");
#elif MC_PART == 3
        access<V>(b); native<V, T>(b); broadcasts<V>(b);
        access<M>(b + "/mask"); native<M, bool>(b + "/mask");
#else
        ms<V, T, el>(b); ms<V, T, va>(b); ms<V, T, ov<64>>(b);
        ms<M, bool, el>(b + "/mask"); ms<M, bool, va>(b + "/mask");
#endif
    });
#endif
    for_abis(typename abi_short<T>::type{}, []<class A>()
    {
        using V = dpm::simd<T, A>;
        const std::string b = std::string(tn<T>()) + "/" + abi_name<A>::get();
        [&]<class... Us>(abis<Us...>)
        {
#if MC_PART == 1
            ((ls<V, Us, el>(b), ls<V, Us, va>(b)), ...);
#elif MC_PART == 2
            ((ms<V, Us, el>(b), ms<V, Us, va>(b)), ...);
#endif
        }(abis<float, double, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>{});
    });
    return finish();
}
