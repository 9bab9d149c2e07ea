// Declared grids of floating-point values, and a sweep of unary functions over them (values packed densely, no rotation).
#pragma once
#include "eng.hpp"
namespace mc
{
// calls into the C library below would otherwise pay for dirty upper register halves
#ifdef __AVX__
inline void zero_upper() { _mm256_zeroupper(); }
#else
inline void zero_upper() {}
#endif
// every sign and exponent combined with a fixed set of significands
template<class T> struct Grid
{
    using U = typename bits_of<T>::type;
    static constexpr int MB = std::numeric_limits<T>::digits - 1, EB = int(sizeof(T) * 8) - 1 - MB;
    std::vector<U> sig;
    std::uint64_t size() const { return (std::uint64_t{2} << EB) * sig.size(); }
    T at(std::uint64_t k) const
    {
        const U s = sig[k % sig.size()];
        const U e = U(k / sig.size()); // sign and exponent
        return std::bit_cast<T>(U((e << MB) | s));
    }
    // top: all patterns of that many leading significand bits, each continued with zeros and with ones; and all single-bit and two's-complement neighbours
    static Grid make(int top)
    {
        Grid g;
        std::set<U> s;
        const U m = (U(1) << MB) - 1;
        for (U t = 0; t < (U(1) << top); ++t) { s.insert((t << (MB - top)) & m); s.insert(((t << (MB - top)) | ((U(1) << (MB - top)) - 1)) & m); }
        for (int b = 0; b < MB; ++b) for (U d : {U(0), U(1), U(-1)}) { s.insert(((U(1) << b) + d) & m); s.insert((m ^ (U(1) << b)) & m); s.insert(((m << b) + d) & m); s.insert((((m << b) & m) >> 1) & m); }
        g.sig.assign(s.begin(), s.end());
        return g;
    }
};
// sweep a unary function over values val(0..m-1); judge sees (got, value)
template<class T, class R, class V, class J> MC_NOINLINE inline void dense(const std::string &name, std::size_t n, fn3<T, R> fn, std::uint64_t m, V val, J judge)
{
    if (!site(name)) return;
    T a[128];
    R o[128];
    std::uint64_t nt = 0, calls = 0;
    for (std::uint64_t k = 0; k < m; k += n)
    {
        for (std::size_t i = 0; i < n; ++i) a[i] = val((k + i) % m);
        fn(a, a, a, o);
        zero_upper();
        ++calls;
        for (std::size_t i = 0; i < n; ++i)
        {
            if (!judge(o[i], a[i])) fail("(%s) lane %zu of %zu: got %s", str(a[i]), i, n, str(o[i]));
            nt += !trivial_case(o[i]);
        }
        if (k == n * 1000) sample("(%s) -> %s", str(a[0]), str(o[0]));
    }
    ops += calls;
    states += m;
    count(calls * n, nt);
}
} // namespace mc
