// Type-erased sweep engine: the vector types only appear in tiny thunks, all enumeration and judging is per element type.
#pragma once
#include "mc.hpp"
namespace mc
{
inline unsigned char dirt = 0xA5; // what the storage (and with it the lanes past size()) holds before elements are written
template<class V, class T> MC_NOINLINE inline void putd(V &v, const T *p) { std::memset(static_cast<void *>(&v), dirt, sizeof v); for (std::size_t i = 0; i < V::size(); ++i) v[i] = p[i]; }
using uc = unsigned char;

template<class T, class R> using fn3 = void (*)(const T *, const T *, const T *, R *);
template<class T, class R> using ref3 = R (*)(T, T, T);
template<class T> struct Tup { T a, b, c; };

// thunks; OP is a stateless type with `template<class V> static auto f(V, V, V)`
template<class V, class OP, class T, class R> MC_NOINLINE inline void thunk(const T *a, const T *b, const T *c, R *o)
{
    V x, y, z;
    putd(x, a);
    if constexpr (OP::arity > 1) putd(y, b);
    if constexpr (OP::arity > 2) putd(z, c);
    if constexpr (OP::arity == 1) { auto r = OP::f(x); static_assert(decltype(r)::size() == V::size()); get(r, o); }
    else if constexpr (OP::arity == 2) { auto r = OP::f(x, y); static_assert(decltype(r)::size() == V::size()); get(r, o); }
    else { auto r = OP::f(x, y, z); static_assert(decltype(r)::size() == V::size()); get(r, o); }
}
template<class T> inline std::vector<Tup<T>> tuples(int arity, const std::vector<T> &a)
{
    std::vector<Tup<T>> r;
    if (arity == 1) for (auto x : a) r.push_back({x, x, x});
    else if (arity == 2) for (auto x : a) for (auto y : a) r.push_back({x, y, x});
    else for (auto x : a) for (auto y : a) for (auto z : a) r.push_back({x, y, z});
    return r;
}
inline bool trivial_case(auto x) { return bits(x) == 0; }

// Every tuple passes through every lane of the vector (vector k holds tuples k, k+1, ...).
// judge(got, want, tuple) decides; default: identical.
template<class T, class R> inline bool judge_same(R g, R w, const Tup<T> &) { return same(g, w); }
template<class T, class R> MC_NOINLINE inline void sweep(const std::string &name, std::size_t n, int arity, fn3<T, R> fn, ref3<T, R> ref, const std::vector<Tup<T>> &cases, bool (*judge)(R, R, const Tup<T> &) = judge_same<T, R>, std::size_t step = 1)
{
    if (!site(name)) return;
    T a[128], b[128], c[128];
    R o[128], w[128];
    const std::size_t m = cases.size();
    if (!m) return;
    std::vector<R> want(m);
    for (std::size_t k = 0; k < m; ++k) want[k] = ref(cases[k].a, cases[k].b, cases[k].c);
    std::uint64_t nt = 0;
    for (std::size_t k = 0; k < m; k += step)
    {
        static constexpr unsigned char dd[4] = {0xA5, 0x00, 0xFF, 0x5A};
        dirt = dd[(k / step) & 3];
        for (std::size_t i = 0; i < n; ++i) { const auto &t = cases[(k + i) % m]; a[i] = t.a; b[i] = t.b; c[i] = t.c; w[i] = want[(k + i) % m]; }
        fn(a, b, c, o);
        for (std::size_t i = 0; i < n; ++i)
        {
            const Tup<T> t{a[i], b[i], c[i]};
            if (!judge(o[i], w[i], t))
            {
                if (arity == 1) fail("(%s) lane %zu of %zu: got %s, expected %s", str(a[i]), i, n, str(o[i]), str(w[i]));
                else if (arity == 2) fail("(%s, %s) lane %zu of %zu: got %s, expected %s", str(a[i]), str(b[i]), i, n, str(o[i]), str(w[i]));
                else fail("(%s, %s, %s) lane %zu of %zu: got %s, expected %s", str(a[i]), str(b[i]), str(c[i]), i, n, str(o[i]), str(w[i]));
            }
            nt += !trivial_case(w[i]);
        }
        if (k / step == 3) sample("(%s, %s) -> %s", str(a[0]), str(b[0]), str(o[0]));
        ++ops;
    }
    states += m;
    count(n * ((m + step - 1) / step), nt);
    dirt = 0xA5;
}
} // namespace mc
