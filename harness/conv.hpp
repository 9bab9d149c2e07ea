// Conversions between element types: which values have a defined scalar conversion, and its result.
#pragma once
#include "eng.hpp"
namespace mc
{
template<class E> using box = std::conditional_t<std::is_same_v<E, bool>, uc, E>; // bool vectors are handled as bytes 0/1

// values of U that convert to V without leaving V's range
template<class U, class V> inline bool convertible_value(U x)
{
    if constexpr (std::is_same_v<V, bool> || std::is_same_v<U, bool>) return true;
    else if constexpr (std::is_floating_point_v<U> && !std::is_floating_point_v<V>)
        return x == x && (long double) x > (long double) std::numeric_limits<V>::min() - 1.0L && (long double) x < (long double) std::numeric_limits<V>::max() + 1.0L;
    else if constexpr (std::is_floating_point_v<U> && std::is_floating_point_v<V>)
        return !(x == x) || std::isinf(x) || std::fabs((long double) x) <= (long double) std::numeric_limits<V>::max();
    else return true;
}
template<class U, class V> inline std::vector<box<U>> conv_alphabet()
{
    std::vector<box<U>> r;
    if constexpr (std::is_same_v<U, bool>) r = {0, 1, 1, 0, 0};
    else
    {
        for (auto x : alphabet<U>()) if (convertible_value<U, V>(x)) r.push_back(x);
        if constexpr (std::is_floating_point_v<U>)
            for (double d : {0.5, 1.5, 2.5, 2.9, -0.5, -1.5, -2.9, 3.5, 126.7, -127.6, 32766.9, 65534.7, 1048575.75, 8388606.75, 1e9 + 0.5})
                if (convertible_value<U, V>((U) d)) push_unique(r, (U) d);
    }
    return r;
}
template<class From, class To> MC_NOINLINE inline box<To> conv(box<From> x) { if constexpr (std::is_same_v<To, bool>) return (bool) x; else return static_cast<To>(x); }
} // namespace mc
