// Common machinery of the exhaustive drivers: site bookkeeping, value alphabets, ABI lists, lane-sweep engine.
#pragma once
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <algorithm>
#include <array>
#include <bit>
#include <cfenv>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#define MC_NOINLINE __attribute__((noinline))

namespace mc
{
// ---------------------------------------------------------------- type names
template<class T> inline const char *tn() { return "?"; }
template<> inline const char *tn<float>() { return "f32"; }
template<> inline const char *tn<double>() { return "f64"; }
template<> inline const char *tn<long double>() { return "f80"; }
template<> inline const char *tn<std::int8_t>() { return "i8"; }
template<> inline const char *tn<std::uint8_t>() { return "u8"; }
template<> inline const char *tn<std::int16_t>() { return "i16"; }
template<> inline const char *tn<std::uint16_t>() { return "u16"; }
template<> inline const char *tn<std::int32_t>() { return "i32"; }
template<> inline const char *tn<std::uint32_t>() { return "u32"; }
template<> inline const char *tn<std::int64_t>() { return "i64"; }
template<> inline const char *tn<std::uint64_t>() { return "u64"; }
template<> inline const char *tn<char>() { return "char"; }
template<> inline const char *tn<long long>() { return "ll"; }
template<> inline const char *tn<bool>() { return "bool"; }

template<class A> struct abi_name;
template<> struct abi_name<dpm::simd_abi::scalar> { static std::string get() { return "scalar"; } };
template<std::size_t N, std::size_t A> struct abi_name<dpm::simd_abi::ext::aligned_vector<N, A>>
{
    static std::string get() { return "v" + std::to_string(N) + (A == SIZE_MAX ? std::string("p") : A ? "a" + std::to_string(A) : std::string("")); }
};

// ---------------------------------------------------------------- bookkeeping
struct Site { std::uint64_t evals = 0, nontrivial = 0, fails = 0; std::vector<std::string> details; };
inline std::map<std::string, Site> sites;
inline Site *cur = nullptr;
inline std::string cur_name;
inline std::vector<std::string> samples;
inline std::string filter;           // substring filter on site names (replay)
inline std::uint64_t states = 0;     // distinct states (argument tuples, masks, machine states) visited
inline std::uint64_t ops = 0;        // executions of library operations
inline int tier = 0;                 // 0 quick, 1 thorough
inline int shard = 0, shards = 1;
constexpr std::size_t max_details = 5000;

inline bool site(std::string name)
{
    std::replace(name.begin(), name.end(), ' ', '_');
    if (!filter.empty() && name != filter) { cur = nullptr; return false; }
    cur = &sites[name];
    cur_name = name;
    return true;
}
inline void count(std::uint64_t n, std::uint64_t nt) { if (cur) { cur->evals += n; cur->nontrivial += nt; } }
__attribute__((format(printf, 1, 2), cold, noinline)) inline void fail(const char *fmt, ...)
{
    if (!cur) return;
    ++cur->fails;
    if (cur->details.size() >= max_details) return;
    char buf[900];
    va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    cur->details.emplace_back(buf);
}
__attribute__((format(printf, 1, 2))) inline void sample(const char *fmt, ...)
{
    if (samples.size() >= 6) return;
    char buf[600];
    va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    samples.emplace_back(cur_name + ": " + buf);
}
inline std::string esc(const std::string &s)
{
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; }
    return r;
}
inline void init(int argc, char **argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a.rfind("--site=", 0) == 0) filter = a.substr(7);
        if (a == "--thorough") tier = 1;
        if (a.rfind("--shard=", 0) == 0) std::sscanf(a.c_str() + 8, "%d/%d", &shard, &shards);
    }
}
inline int finish()
{
    for (auto &[n, s] : sites)
    {
        std::printf("SITE %s %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", n.c_str(), s.evals, s.nontrivial, s.fails);
        for (auto &d : s.details) std::printf("FAIL %s\t%s\n", n.c_str(), d.c_str());
    }
    for (auto &s : samples) std::printf("SAMPLE %s\n", s.c_str());
    std::printf("STATES %" PRIu64 "\nOPS %" PRIu64 "\n", states, ops);
    std::printf("DONE\n");
    std::fflush(stdout);
    return 0;
}

// ---------------------------------------------------------------- bits & printing
template<class T> struct bits_of { using type = std::make_unsigned_t<T>; };
template<> struct bits_of<float> { using type = std::uint32_t; };
template<> struct bits_of<double> { using type = std::uint64_t; };
template<> struct bits_of<bool> { using type = std::uint8_t; };
template<class T> inline auto bits(T x)
{
    if constexpr (std::is_same_v<T, long double>) { unsigned __int128 r = 0; std::memcpy(&r, &x, 10); return r; }
    else return std::bit_cast<typename bits_of<T>::type>(x);
}
inline thread_local char pbuf[16][80];
inline thread_local int pbi = 0;
template<class T> inline const char *str(T x)
{
    char *b = pbuf[pbi++ & 15];
    if constexpr (std::is_same_v<T, long double>) std::snprintf(b, 80, "%.21Lg", x);
    else if constexpr (std::is_same_v<T, float>) std::snprintf(b, 80, "%.9g(0x%08x)", (double) x, (unsigned) bits(x));
    else if constexpr (std::is_same_v<T, double>) std::snprintf(b, 80, "%.17g(0x%016llx)", x, (unsigned long long) bits(x));
    else if constexpr (std::is_signed_v<T>) std::snprintf(b, 80, "%lld", (long long) x);
    else std::snprintf(b, 80, "%llu", (unsigned long long) x);
    return b;
}
template<class T> inline bool is_nan(T x) { if constexpr (std::is_floating_point_v<T>) return x != x; else { (void) x; return false; } }
// identical value: same bits, or both NaN (NaN payload and sign are never part of a property)
template<class T> inline bool same(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>) { if (a != a) return b != b; return bits(a) == bits(b); }
    else return a == b;
}

// ---------------------------------------------------------------- alphabets
template<class T> inline void push_unique(std::vector<T> &v, T x) { for (auto &y : v) if (bits(y) == bits(x)) return; v.push_back(x); }
template<class T> inline std::vector<T> int_alphabet()
{
    std::vector<T> v;
    if constexpr (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) v.push_back(static_cast<T>(i)); return v; }
    for (std::int64_t x : {0, 1, 2, 3, -1, -2, -3, 5, 7, 100}) push_unique(v, static_cast<T>(x));
    for (int b = 7; b < 64; b += (b % 8 == 7) ? 1 : 7)
        for (int d : {-1, 0, 1}) { push_unique(v, static_cast<T>((std::uint64_t{1} << b) + d)); push_unique(v, static_cast<T>(-((std::uint64_t{1} << b) + d))); }
    for (std::uint64_t x : {0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x00ff00ff00ff00ffull, 0x80000000ffffffffull, 0x7fffffff00000000ull, 0x8000000080000000ull, 0x00000001fffffffeull})
        push_unique(v, static_cast<T>(x));
    // halfway cases of conversions to float and double
    if constexpr (sizeof(T) >= 4)
        for (int p : {24, 53})
            for (int b : {25, 30, 31, 54, 62, 63})
                if (b >= p && b < int(sizeof(T) * 8))
                    for (std::uint64_t odd : {0, 1})
                        for (int d : {-1, 0, 1}) { const std::uint64_t x = (1ull << b) + (odd << (b - p + 1)) + (1ull << (b - p)) + d; push_unique(v, static_cast<T>(x)); }
    push_unique(v, std::numeric_limits<T>::min()); push_unique(v, std::numeric_limits<T>::max());
    push_unique(v, static_cast<T>(std::numeric_limits<T>::min() + 1)); push_unique(v, static_cast<T>(std::numeric_limits<T>::max() - 1));
    return v;
}
template<class T> inline std::vector<T> fp_alphabet()
{
    using L = std::numeric_limits<T>;
    std::vector<T> p = {T(0), T(1), T(0.5), T(1.5), T(2), T(2.5), T(3), T(3.5), T(0.1), T(0.49999997), T(0.7), T(10), T(100.25), T(1e-10), T(1e10), T(123456.789),
                        L::denorm_min(), L::denorm_min() * 3, std::nextafter(L::min(), T(0)), L::min(), L::min() * T(1.5), L::max(), std::nextafter(L::max(), T(0)), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2,
                        T(8388607.5), T(8388608), T(8388609), T(16777216), T(16777215), T(2147483647), T(2147483648.0), T(4294967295.0), T(4294967296.0), T(4503599627370495.5), T(4503599627370496.0), T(9007199254740991.0), T(9223372036854775807.0), T(9223374235878031360.0),
                        std::ldexp(T(1), L::max_exponent - 1), std::ldexp(T(1), L::min_exponent / 2), std::ldexp(T(1), L::max_exponent / 2), T(3.14159265358979323846L), T(1.57079632679489661923L), T(2.71828182845904523536L),
                        L::infinity(), L::quiet_NaN()};
    std::vector<T> v;
    for (auto x : p) { push_unique(v, x); push_unique(v, -x); }
    return v;
}
template<class T> inline std::vector<T> alphabet() { if constexpr (std::is_floating_point_v<T>) return fp_alphabet<T>(); else return int_alphabet<T>(); }
template<class T> inline std::vector<T> small_alphabet()
{
    std::vector<T> v;
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
        v = {T(0), -T(0), T(1), -T(1), T(2.5), -T(2.5), T(0.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(3), T(1e10), T(-7.25)};
    else
        for (std::int64_t x : {std::int64_t(0), std::int64_t(1), std::int64_t(-1), std::int64_t(L::min()), std::int64_t(L::max()), std::int64_t(2), std::int64_t(5), std::int64_t(-3), std::int64_t(0x7f), std::int64_t(0x80), std::int64_t(0x1234567890abcdef), std::int64_t(0x5555555555555555)}) push_unique(v, static_cast<T>(x));
    return v;
}

// ---------------------------------------------------------------- ABI lists
template<class... As> struct abis {};
namespace ab = dpm::simd_abi;
template<std::size_t N> using fx = ab::fixed_size<N>;
template<std::size_t N, std::size_t A> using av = ab::ext::aligned_vector<N, A>;
template<std::size_t N> using pk = ab::ext::packed_buffer<N>;

template<class T, std::size_t S = sizeof(T)> struct abi_list;
template<class T> struct abi_list<T, 1> { using type = abis<ab::scalar, fx<1>, fx<2>, fx<3>, fx<8>, fx<15>, fx<16>, fx<17>, fx<31>, fx<32>, av<16, 16>, av<21, 16>, av<32, 32>, av<27, 32>, pk<3>, pk<16>>; };
template<class T> struct abi_list<T, 2> { using type = abis<ab::scalar, fx<1>, fx<2>, fx<3>, fx<7>, fx<8>, fx<9>, fx<16>, fx<19>, fx<32>, av<8, 16>, av<13, 16>, av<16, 32>, av<11, 32>, pk<3>, pk<8>>; };
template<class T> struct abi_list<T, 4> { using type = abis<ab::scalar, fx<1>, fx<2>, fx<3>, fx<4>, fx<5>, fx<7>, fx<8>, fx<13>, fx<16>, fx<32>, av<4, 16>, av<6, 16>, av<8, 32>, av<3, 32>, av<11, 32>, pk<3>, pk<4>>; };
template<class T> struct abi_list<T, 8> { using type = abis<ab::scalar, fx<1>, fx<2>, fx<3>, fx<4>, fx<5>, fx<8>, fx<11>, fx<32>, av<2, 16>, av<3, 16>, av<4, 32>, av<7, 32>, pk<3>, pk<4>>; };
template<class T> struct abi_list<T, 16> { using type = abis<ab::scalar, fx<1>, fx<3>, fx<4>, pk<5>>; };
// a smaller list for expensive products
template<class T, std::size_t S = sizeof(T)> struct abi_short;
template<class T> struct abi_short<T, 1> { using type = abis<ab::scalar, fx<5>, fx<16>, av<21, 16>, av<32, 32>, pk<3>>; };
template<class T> struct abi_short<T, 2> { using type = abis<ab::scalar, fx<5>, fx<8>, av<13, 16>, av<16, 32>, pk<3>>; };
template<class T> struct abi_short<T, 4> { using type = abis<ab::scalar, fx<3>, fx<4>, av<6, 16>, av<8, 32>, fx<11>, pk<3>>; };
template<class T> struct abi_short<T, 8> { using type = abis<ab::scalar, fx<2>, fx<3>, av<4, 32>, fx<7>, pk<3>>; };
template<class T> struct abi_short<T, 16> { using type = abis<ab::scalar, fx<3>, pk<2>>; };

// every number of used elements of the last register: 16-byte and 32-byte registers
template<class T, std::size_t R, class = std::make_index_sequence<R / sizeof(T) - 1>> struct abi_residue;
template<class T, std::size_t R, std::size_t... I> struct abi_residue<T, R, std::index_sequence<I...>> { using type = abis<av<(I & 1 ? R / sizeof(T) : 0) + I + 1, R>...>; };

template<class F, class... As> inline void for_abis(abis<As...>, F &&f) { (f.template operator()<As>(), ...); }

// ---------------------------------------------------------------- element access helpers (only operator[] is used)
template<class V, class T> MC_NOINLINE inline void put(V &v, const T *p) { for (std::size_t i = 0; i < V::size(); ++i) v[i] = p[i]; }
template<class V, class T> MC_NOINLINE inline void get(const V &v, T *p) { for (std::size_t i = 0; i < V::size(); ++i) p[i] = static_cast<T>(v[i]); }
// An uninitialised-looking vector: all storage bytes 0xA5 (also the lanes past size()).
template<class V> inline void dirty(V &v) { std::memset(static_cast<void *>(&v), 0xA5, sizeof v); }
template<class V, class T> inline V load(const T *p) { V v; dirty(v); put(v, p); return v; }

// ---------------------------------------------------------------- mask patterns
inline std::vector<std::uint64_t> mask_patterns(std::size_t n, std::size_t full = 10)
{
    std::vector<std::uint64_t> r;
    const std::uint64_t all = n >= 64 ? ~0ull : (1ull << n) - 1;
    if (n <= full) { for (std::uint64_t m = 0; m <= all; ++m) r.push_back(m); return r; }
    std::set<std::uint64_t> s = {0, all, 0x5555555555555555ull & all, 0xAAAAAAAAAAAAAAAAull & all, 0x3333333333333333ull & all, 0x0f0f0f0f0f0f0f0full & all, 0x00ff00ff00ff00ffull & all, 0x123456789abcdef1ull & all};
    for (std::size_t i = 0; i < n; ++i)
    {
        s.insert(1ull << i); s.insert(all & ~(1ull << i)); s.insert((1ull << i) - 1); s.insert(all & ~((1ull << i) - 1));
        for (std::size_t j = i + 1; j < n; ++j) { s.insert((1ull << i) | (1ull << j)); s.insert(all & ~((1ull << i) | (1ull << j))); }
    }
    return {s.begin(), s.end()};
}
} // namespace mc
