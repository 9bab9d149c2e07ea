// Masks: breadth-first exploration of the states of a simd_mask object (its bytes, padding lanes included)
// under the mask operations. PART 0 judges every operation against an array of bool, PART 1 judges the reductions
// in every state reached. PART 2, 3: the reductions of 16-byte and 32-byte masks with every number of used elements in
// the last register.
#include "eng.hpp"
#include <unordered_map>
#include <deque>
using namespace mc;
using T = MC_T;
using raw = unsigned char;

enum Bin { b_and, b_or, b_xor, b_land, b_lor, b_eq, b_ne, b_and_eq, b_or_eq, b_xor_eq, n_bin };
static const char *bin_name[] = {"a&b", "a|b", "a^b", "a&&b", "a||b", "a==b", "a!=b", "a&=b", "a|=b", "a^=b"};
enum Un { u_not, u_lnot, u_plus, u_minus, u_copy, n_un };
static const char *un_name[] = {"~a", "!a", "+a", "-a", "copy"};
enum Red { r_all, r_any, r_none, r_some, r_count, r_min, r_max, n_red };
static const char *red_name[] = {"all_of", "any_of", "none_of", "some_of", "reduce_count", "reduce_min_index", "reduce_max_index"};

struct VT
{
    std::size_t n, bytes;
    bool (*bin)(int, const raw *, const raw *, raw *);
    void (*un)(int, const raw *, raw *);
    void (*blend)(const raw *, const raw *, const raw *, raw *);
    void (*get)(const raw *, bool *);
    void (*put)(raw *, const bool *);
    void (*set)(raw *, std::size_t, bool);
    bool (*flag)(const raw *, std::size_t);
    std::uint64_t (*red)(int, const raw *);
};
template<class A> struct impl
{
    using M = dpm::simd_mask<T, A>;
    static const M &at(const raw *p) { return *reinterpret_cast<const M *>(p); }
    static M &at(raw *p) { return *reinterpret_cast<M *>(p); }
    MC_NOINLINE static bool bin(int op, const raw *pa, const raw *pb, raw *po)
    {
        const M &a = at(pa), &b = at(pb);
        M &o = at(po);
        switch (op)
        {
#if MC_PART == 0
        case b_and: o = a & b; break;
        case b_or: o = a | b; break;
        case b_xor: o = a ^ b; break;
        case b_land: o = a && b; break;
        case b_lor: o = a || b; break;
        case b_eq: o = a == b; break;
        case b_ne: o = a != b; break;
#else
        case b_and: o = a & b; break;
        case b_xor: o = a ^ b; break;
        case b_eq: o = a == b; break;
#endif
#if MC_PART == 0
        case b_and_eq: { o = a; return &(o &= b) == &o; }
        case b_or_eq: { o = a; return &(o |= b) == &o; }
        case b_xor_eq: { o = a; return &(o ^= b) == &o; }
#endif
        }
        return true;
    }
    MC_NOINLINE static void un(int op, const raw *pa, raw *po)
    {
        const M &a = at(pa);
        M &o = at(po);
        switch (op)
        {
        case u_not: o = ~a; break;
#if MC_PART == 0
        case u_lnot: o = !a; break;
        case u_plus: o = +a; break;
        case u_minus: o = -a; break;
#endif
        case u_copy: { M c(a); o = c; } break;
        }
    }
#if MC_PART == 0
    MC_NOINLINE static void blend(const raw *m, const raw *a, const raw *b, raw *o) { at(o) = dpm::blend(at(m), at(a), at(b)); }
#endif
    MC_NOINLINE static void get(const raw *p, bool *b) { const M &m = at(p); for (std::size_t i = 0; i < M::size(); ++i) b[i] = m[i]; }
    MC_NOINLINE static void put(raw *p, const bool *b) { M &m = at(p); for (std::size_t i = 0; i < M::size(); ++i) m[i] = b[i]; }
    MC_NOINLINE static void set(raw *p, std::size_t i, bool v) { at(p)[i] = v; }
    MC_NOINLINE static bool flag(const raw *p, std::size_t i) { return static_cast<bool>(const_cast<M &>(at(p))[i]); }
#if MC_PART
    MC_NOINLINE static std::uint64_t red(int op, const raw *p)
    {
        const M &m = at(p);
        switch (op)
        {
        case r_all: return dpm::all_of(m);
        case r_any: return dpm::any_of(m);
        case r_none: return dpm::none_of(m);
        case r_some: return dpm::some_of(m);
        case r_count: return dpm::reduce_count(m);
        case r_min: return dpm::reduce_min_index(m);
        default: return dpm::reduce_max_index(m);
        }
    }
#endif
    static VT vt()
    {
        VT v{};
        v.n = M::size(); v.bytes = sizeof(M); v.bin = bin; v.un = un; v.get = get; v.put = put; v.set = set; v.flag = flag;
#if MC_PART == 0
        v.blend = blend;
#else
        v.red = red;
#endif
        return v;
    }
};

struct State { std::string bytes; std::uint64_t val; int depth; };
static std::string show(const std::string &b) { std::string r; char t[4]; for (unsigned char c : b) { std::snprintf(t, 4, "%02x", c); r += t; } return r; }
static std::string bitstr(std::uint64_t v, std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) r += (v >> i & 1) ? '1' : '0'; return r; }

struct Explorer
{
    const VT &v;
    std::string base;
    alignas(64) raw A[1024], B[1024], C[1024], O[1024];
    std::unordered_map<std::string, std::uint64_t> seen;
    std::deque<State> q;
    std::uint64_t all;
    std::string tmp;
    Explorer(const VT &v, std::string b) : v(v), base(std::move(b)), all(v.n >= 64 ? ~0ull : (1ull << v.n) - 1) {}

    std::uint64_t value(const raw *p) { bool b[64]; v.get(p, b); std::uint64_t r = 0; for (std::size_t i = 0; i < v.n; ++i) r |= std::uint64_t(b[i]) << i; return r; }
    std::string make(std::uint64_t m, raw dirt)
    {
        bool b[64];
        for (std::size_t i = 0; i < v.n; ++i) b[i] = m >> i & 1;
        std::memset(O, dirt, v.bytes);
        v.put(O, b);
        return std::string((char *) O, v.bytes);
    }
    void reached(const std::string &s, std::uint64_t val, int depth)
    {
        if (seen.find(s) == seen.end()) { seen.emplace(s, val); q.push_back({s, val, depth}); ++states; }
    }
    void result(const char *op, const State &a, const std::string *b, std::uint64_t want, int maxd, const std::string *c = nullptr)
    {
        ++ops;
        tmp.assign((char *) O, v.bytes);
        const std::uint64_t got = value(O);
        for (std::size_t i = 0; i < v.n; ++i)
            if (v.flag(O, i) != bool(got >> i & 1)) fail("%s: element %zu reads %d through a reference", op, i, !(got >> i & 1));
        count(1, want != 0 && want != all);
        if (got != want && cur && cur->details.size() >= 200) ++cur->fails;
        else if (got != want) fail("%s with a = %s%s%s%s%s gave %s, expected %s (after %d operations)", op, show(a.bytes).c_str(), b ? ", b = " : "", b ? show(*b).c_str() : "", c ? ", c = " : "", c ? show(*c).c_str() : "", bitstr(got, v.n).c_str(), bitstr(want, v.n).c_str(), a.depth);
        else if (a.depth + 1 <= maxd) reached(tmp, want, a.depth + 1);
    }
    void explore(int maxd)
    {
        const std::size_t full = tier ? 12 : 8;
        const raw dirts[] = {0xA5, 0x00, 0xFF};
        for (auto m : mask_patterns(v.n, full)) for (raw d : dirts) reached(make(m, d), m, 0);
        // second operands
        std::vector<std::pair<std::string, std::uint64_t>> opnd;
        std::vector<std::uint64_t> om = v.n <= 4 ? mask_patterns(v.n) : std::vector<std::uint64_t>{0, all, 1, 1ull << (v.n - 1), 0x5555555555555555ull & all, 0xAAAAAAAAAAAAAAAAull & all, 0x3333333333333333ull & all, all >> 1, (all << 1) & all, 0x0f0f0f0f0f0f0f0full & all, 0x123456789abcdef1ull & all};
        for (auto m : om) for (raw d : dirts) opnd.push_back({make(m, d), m});
        std::unordered_map<const char *, std::pair<Site *, std::string>> cache;
        auto site = [&](const char *n) { auto it = cache.find(n); if (it == cache.end()) { const bool ok = mc::site(base + n); it = cache.emplace(n, std::pair{ok ? cur : nullptr, base + n}).first; } cur = it->second.first; if (cur) cur_name.assign(it->second.second); return cur != nullptr; };
        while (!q.empty())
        {
            const State s = q.front();
            q.pop_front();
            std::memcpy(A, s.bytes.data(), v.bytes);
#if MC_PART == 0
            for (int u = 0; u < n_un; ++u)
            {
                if (!site(un_name[u])) continue;
                std::memset(O, 0x3C, v.bytes);
                v.un(u, A, O);
                result(un_name[u], s, nullptr, u == u_plus || u == u_copy ? s.val : ~s.val & all, maxd);
            }
            if (site("a[i]=b"))
                for (std::size_t i = 0; i < v.n; ++i)
                    for (int x = 0; x < 2; ++x)
                    {
                        std::memcpy(O, A, v.bytes);
                        v.set(O, i, x);
                        result("a[i]=b", s, nullptr, (s.val & ~(1ull << i)) | (std::uint64_t(x) << i), maxd);
                    }
            for (int o = 0; o < n_bin; ++o)
            {
                if (!site(bin_name[o])) continue;
                for (auto &[bs, bv] : opnd)
                {
                    std::memcpy(B, bs.data(), v.bytes);
                    std::memset(O, 0x3C, v.bytes);
                    if (!v.bin(o, A, B, O)) fail("%s does not return its left operand", bin_name[o]);
                    const std::uint64_t x = s.val, y = bv;
                    const std::uint64_t w = o == b_and || o == b_land || o == b_and_eq ? x & y : o == b_or || o == b_lor || o == b_or_eq ? x | y : o == b_xor || o == b_ne || o == b_xor_eq ? x ^ y : ~(x ^ y);
                    result(bin_name[o], s, &bs, w & all, maxd);
                }
            }
            if (site("blend"))
                for (std::size_t k = 0; k < opnd.size(); ++k)
                    for (std::size_t l0 = 0; l0 < (v.n <= 4 ? opnd.size() : 3); ++l0)
                    {
                        const std::size_t l = v.n <= 4 ? l0 : (k * (l0 + 1) + 1 + 5 * l0) % opnd.size();
                        std::memcpy(B, opnd[k].first.data(), v.bytes);
                        std::memcpy(C, opnd[l].first.data(), v.bytes);
                        std::memset(O, 0x3C, v.bytes);
                        v.blend(A, B, C, O);
                        result("blend(a, b, c)", s, &opnd[k].first, ((s.val & opnd[k].second) | (~s.val & opnd[l].second)) & all, maxd, &opnd[l].first);
                    }
#else
            for (int r = 0; r < n_red; ++r)
            {
                if (!site(red_name[r])) continue;
                if ((r == r_min || r == r_max) && !s.val) continue; // no true element: outside the domain
                const std::uint64_t x = s.val;
                const std::uint64_t w = r == r_all ? x == all : r == r_any ? x != 0 : r == r_none ? x == 0 : r == r_some ? x != 0 && x != all : r == r_count ? std::popcount(x) : r == r_min ? std::countr_zero(x) : 63 - std::countl_zero(x);
                const std::uint64_t g = v.red(r, A);
                ++ops;
                count(1, x != 0 && x != all);
                if (g != w) fail("%s(%s) gave %llu, expected %llu (mask %s after %d operations)", red_name[r], show(s.bytes).c_str(), (unsigned long long) g, (unsigned long long) w, bitstr(x, v.n).c_str(), s.depth);
            }
            // successors: enough to vary what lies past size()
            site("states");
            std::memset(O, 0x3C, v.bytes);
            v.un(u_not, A, O); succ(s, ~s.val & all, maxd);
            for (auto &[bs, bv] : opnd)
            {
                std::memcpy(B, bs.data(), v.bytes);
                v.bin(b_and, A, B, O); succ(s, s.val & bv, maxd);
                v.bin(b_xor, A, B, O); succ(s, (s.val ^ bv) & all, maxd);
                v.bin(b_eq, A, B, O); succ(s, ~(s.val ^ bv) & all, maxd);
            }
#endif
        }
        sample("%zu states, e.g. %s", seen.size(), seen.empty() ? "" : show(seen.begin()->first).c_str());
    }
    void succ(const State &a, std::uint64_t want, int maxd)
    {
        ++ops;
        if (value(O) == want && a.depth + 1 <= maxd) reached(std::string((char *) O, v.bytes), want, a.depth + 1); // wrong results are reported by the algebra check
    }
};

int main(int argc, char **argv)
{
    init(argc, argv);
#if MC_PART < 2
    using types = abi_list<T>::type;
#else
    using types = abi_residue<T, (MC_PART - 1) * 16>::type;
#endif
    for_abis(types{}, [&]<class A>()
    {
        const VT v = impl<A>::vt();
        Explorer e(v, std::string(tn<T>()) + "/" + abi_name<A>::get() + "/");
        e.explore(MC_PART > 1 ? 0 : v.n <= 4 ? 1000 : tier ? 2 : 1);
    });
    return finish();
}
