// Shuffles: every listed compile-time index pattern, on simd and simd_mask.
#include "eng.hpp"
using namespace mc;
using T = MC_T;
#ifndef MC_PART
#define MC_PART 0
#endif

template<std::size_t M> using Pat = std::array<std::size_t, M>;
template<std::size_t N, std::size_t M> constexpr std::size_t gen(int f, std::size_t i)
{
    const std::size_t h = N / 2 ? N / 2 : 1;
    switch (f)
    {
        case 0: return i % N;                               // identity, prefix, repetition
        case 1: return (N - 1) - (i % N);                   // reverse
        case 2: return 0;                                   // broadcasts
        case 3: return N - 1;
        case 4: return (i + 1) % N;                         // rotation; a run that does not start at a vector boundary
        case 5: return (i + h) % N;                         // swap halves
        case 6: return (i / 2 + (i & 1) * h) % N;           // interleave halves
        case 7: return (i * 2 + i * 2 / N) % N;             // evens then odds
        case 8: return (i ^ 1) % N;
        case 9: return (i ^ 3) % N;
        case 10: return (i ^ 4) % N;
        case 11: return (i / 2) % N;                        // duplicate
        case 12: return (N >= M ? N - M + i : i % N);       // suffix
        case 13: return (i * 3 + 1) % N;
        case 14: return (i * 5 + N - 1) % N;
        case 15: return i % h;                              // lower half twice
        case 16: return (i % h + N - h) % N;                // upper half twice
        case 17: return (i & 4 ? (i ^ 3) : i) % N;          // reverse within every second group of 4
        case 18: return (i & 4 ? i : (i ^ 3)) % N;
        case 19: return (i ^ 8) % N;
        case 20: return (i + N - 1) % N;
        case 21: return (i == 0 ? N - 1 : i) % N;           // identity but for the first lane
        case 22: return (i == M - 1 ? 0 : i) % N;           // identity but for the last lane
        case 23: return i / 4 * 4 % N;                      // broadcast within groups of 4
        case 24: return (i / 4 * 4 + 3) % N;
        case 25: return (i < M / 2 ? i : i - M / 2 + 1) % N;
        case 26: return (i % 4) % N;                        // first group everywhere
        case 27: return (i % 4 + 4) % N;                    // second group everywhere
        case 28: return (i % 4 + (i & 4 ? 0 : 4)) % N;
        // half a vector from one native vector, the other half from another
        case 29: return (i / 4 % 2 ? 8 : 0) % N + i % 4 < N ? (i / 4 % 2 ? 8 : 0) % N + i % 4 : 0;
        case 30: return ((i / 4 % 2 ? 0 : 12) + (i % 4 ^ 3)) % N;
        case 31: return ((i / 4 % 2 ? 8 : 4) + (i % 4 ^ 1)) % N;
        case 32: return ((i / 4 % 2 ? 4 : 8) + (i % 4 ^ 2)) % N;
        case 33: return ((i / 4 % 2 ? 12 : 4) + (i % 4 * 3 & 3)) % N;
        case 34: return ((i / 4 % 2 ? 4 : 12) + (i % 4 / 2)) % N;
        default:
        {
            std::uint64_t s = 0x9E3779B97F4A7C15ull * (f + 1) + N * 977 + M * 131071 + i * 0xD1B54A32D192ED03ull;
            s ^= s >> 29; s *= 0xBF58476D1CE4E5B9ull; s ^= s >> 32;
            return s % N;
        }
    }
}
constexpr int families = 35, randoms = 6;
template<std::size_t N, std::size_t M> constexpr std::size_t n_patterns()
{
    std::size_t all = 1; for (std::size_t i = 0; i < M; ++i) { all *= N; if (all > 260) return families + randoms; }
    return all;
}
template<std::size_t N, std::size_t M> constexpr Pat<M> pattern(std::size_t k)
{
    Pat<M> p{};
    std::size_t all = 1; for (std::size_t i = 0; i < M && all <= 260; ++i) all *= N;
    if (all <= 260) for (std::size_t i = 0; i < M; ++i) { p[i] = k % N; k /= N; }
    else for (std::size_t i = 0; i < M; ++i) p[i] = gen<N, M>(static_cast<int>(k), i);
    return p;
}

template<class V, std::size_t M, std::size_t K, class E> MC_NOINLINE static void thunk(const E *in, E *out)
{
    static constexpr auto P = pattern<V::size(), M>(K);
    V x; putd(x, in);
    [&]<std::size_t... I>(std::index_sequence<I...>)
    {
        const V &c = x;
        const auto r = dpm::ext::shuffle<P[I]...>(c);
        static_assert(decltype(r)::size() == M);
        get(r, out);
    }(std::make_index_sequence<M>{});
}
template<class E> using fn = void (*)(const E *, E *);

template<class E> static std::string show(const E *p, std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += std::string(i ? "," : "") + (std::is_same_v<E, bool> ? (p[i] ? "1" : "0") : std::to_string(p[i])); return s; }

template<class E> static void run_pattern(const std::size_t *ix, std::size_t n, std::size_t m, fn<E> f, std::uint64_t &nt)
{
    bool triv = true; for (std::size_t i = 0; i < m; ++i) triv &= ix[i] == i;
    E in[128], out[128];
    auto one = [&]
    {
        static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
        dirt = dd[ops & 3];
        f(in, out);
        dirt = 0xA5;
        ++ops; ++states; count(1, 0); nt += !triv;
        for (std::size_t i = 0; i < m; ++i)
            if (!same(out[i], in[ix[i]]))
            {
                std::string s; for (std::size_t k = 0; k < m; ++k) s += (k ? "," : "") + std::to_string(ix[k]);
                fail("shuffle<%s> of %zu elements {%s}: element %zu is %s, expected element %zu of the operand: %s", s.c_str(), n, show(in, n).c_str(), i, str(out[i]), ix[i], str(in[ix[i]]));
                return;
            }
    };
    if constexpr (std::is_same_v<E, bool>)
    {
        for (auto b : mask_patterns(n, 6)) { if (n > 8 && std::popcount(b) == 2 && !(b & 1)) continue; for (std::size_t i = 0; i < n; ++i) in[i] = b >> i & 1; one(); }
    }
    else
    {
        for (std::size_t i = 0; i < n; ++i) in[i] = static_cast<E>(i + 1);
        one();
        for (std::size_t i = 0; i < n; ++i) in[i] = static_cast<E>(i * 7 - 50);
        one();
        const auto al = small_alphabet<E>();
        for (std::size_t k = 0; k < al.size(); k += 3) { for (std::size_t i = 0; i < n; ++i) in[i] = al[(k + i) % al.size()]; one(); }
    }
}
template<class V, class E, std::size_t M> static void run_m(const std::string &base)
{
    constexpr std::size_t N = V::size(), NP = n_patterns<N, M>();
    static constexpr auto fns = []<std::size_t... K>(std::index_sequence<K...>) { return std::array<fn<E>, sizeof...(K)>{&thunk<V, M, K, E>...}; }(std::make_index_sequence<NP>{});
    if (!site(base + "->" + std::to_string(M))) return;
    std::uint64_t nt = 0;
    for (std::size_t k = 0; k < NP; ++k) { const auto p = pattern<N, M>(k); run_pattern<E>(p.data(), N, M, fns[k], nt); }
    count(0, nt);
    sample("%zu index patterns from %zu to %zu elements", NP, N, M);
}
template<class V, class E> static void run(const std::string &base)
{
    constexpr std::size_t N = V::size();
    run_m<V, E, N>(base);
    if constexpr (N != 1) run_m<V, E, 1>(base);
    if constexpr (N != 2 && (MC_PART == 0 || sizeof(T) == 8)) run_m<V, E, 2>(base);
    if constexpr (N != 4 && (sizeof(T) >= 4 || N < 16)) run_m<V, E, 4>(base);
    if constexpr (N != 3 && MC_PART == 0) run_m<V, E, 3>(base);
    if constexpr (N != 8) run_m<V, E, 8>(base);
    if constexpr (N != 16 && sizeof(T) < 4) run_m<V, E, 16>(base);
    if constexpr (N > 8 && N != 16) run_m<V, E, N - 3>(base);
    if constexpr (N < 16 && N > 4) run_m<V, E, N + 5>(base);
    if constexpr (MC_PART == 0 && N != 32 && sizeof(T) < 4) run_m<V, E, 32>(base);
}
template<class U, std::size_t S = sizeof(U)> struct lst;
template<class U> struct lst<U, 1> { using type = abis<ab::scalar, fx<5>, fx<16>, av<21, 16>, av<32, 32>, pk<3>>; };
template<class U> struct lst<U, 2> { using type = abis<ab::scalar, fx<5>, fx<8>, av<13, 16>, av<16, 32>, pk<3>>; };
template<class U> struct lst<U, 4> { using type = abis<ab::scalar, fx<2>, fx<3>, fx<4>, av<6, 16>, av<8, 32>, av<11, 32>, fx<16>, pk<3>>; };
template<class U> struct lst<U, 8> { using type = abis<ab::scalar, fx<2>, fx<3>, av<4, 16>, av<4, 32>, fx<7>, pk<3>>; };
int main(int argc, char **argv)
{
    init(argc, argv);
    for_abis(lst<T>::type{}, [&]<class A>()
    {
        const auto b = std::string(tn<T>()) + "/" + abi_name<A>::get() + "/";
#if MC_PART == 0
        run<dpm::simd<T, A>, T>(b + "simd");
#else
        run<dpm::simd_mask<T, A>, bool>(b + "mask");
#endif
    });
    return finish();
}
