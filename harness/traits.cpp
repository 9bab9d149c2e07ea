// Types: every (element type, size, alignment) up to 40 elements; traits, deduction, rebinding, resizing, storage.
#include "fpgrid.hpp"
#include <span>
using namespace mc;
using T = MC_T;
constexpr std::size_t PACKED = SIZE_MAX;
static std::string at;
#define CHECK(...) do { ++ops; ++n_checks; if (!(__VA_ARGS__)) fail("%s: %s", at.c_str(), #__VA_ARGS__); } while (0)
static std::uint64_t n_checks;
using TYPES = std::tuple<float, double, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;

template<class V, std::size_t N> static void native()
{
    V x{};
    const V &c = x;
    auto s = dpm::ext::to_native_data(x);
    auto r = dpm::ext::to_native_data(c);
    CHECK(s.size() == dpm::ext::native_data_size_v<V> && r.size() == s.size() && static_cast<const void *>(s.data()) == static_cast<const void *>(r.data()));
    CHECK(std::is_same_v<std::remove_cv_t<typename decltype(s)::element_type>, std::remove_cv_t<dpm::ext::native_data_type_t<V>>>);
    const auto lo = reinterpret_cast<std::uintptr_t>(&x), p = reinterpret_cast<std::uintptr_t>(s.data());
    CHECK(p >= lo && p + s.size_bytes() <= lo + sizeof(V));
    if (dpm::is_simd_v<V>) CHECK(s.size_bytes() >= N * sizeof(T));
    CHECK(p % alignof(typename decltype(s)::element_type) == 0);
}
template<class U, class V, std::size_t N> static void rebind()
{
    using R = dpm::rebind_simd_t<U, V>;
    CHECK(dpm::is_simd_v<R> == dpm::is_simd_v<V> && dpm::is_simd_mask_v<R> == dpm::is_simd_mask_v<V>);
    CHECK(R::size() == N);
    if constexpr (dpm::is_simd_v<R>) CHECK(std::is_same_v<typename R::value_type, U>);
    else CHECK(std::is_same_v<typename R::simd_type::value_type, U>);
}
template<class V, std::size_t M> static void resize()
{
    using R = dpm::resize_simd_t<M, V>;
    CHECK(dpm::is_simd_v<R> == dpm::is_simd_v<V> && dpm::is_simd_mask_v<R> == dpm::is_simd_mask_v<V>);
    CHECK(R::size() == M);
    if constexpr (dpm::is_simd_v<R>) CHECK(std::is_same_v<typename R::value_type, T>);
    else CHECK(std::is_same_v<typename R::simd_type::value_type, T>);
}
template<class A, std::size_t N> static void type()
{
    using V = dpm::simd<T, A>;
    using K = dpm::simd_mask<T, A>;
    CHECK(dpm::is_abi_tag_v<A> && dpm::is_simd_v<V> && !dpm::is_simd_mask_v<V> && dpm::is_simd_mask_v<K> && !dpm::is_simd_v<K>);
    CHECK(!dpm::is_abi_tag_v<V> && !dpm::is_simd_v<A> && !dpm::is_simd_flag_type_v<A>);
    CHECK(V::size() == N && K::size() == N && dpm::simd_size_v<T, A> == N && dpm::simd_size<T, A>::value == N);
    CHECK(std::is_same_v<typename V::value_type, T> && std::is_same_v<typename V::abi_type, A> && std::is_same_v<typename V::mask_type, K>);
    CHECK(std::is_same_v<typename K::value_type, bool> && std::is_same_v<typename K::abi_type, A> && std::is_same_v<typename K::simd_type, V>);
    CHECK(std::is_default_constructible_v<V> && std::is_copy_constructible_v<V> && std::is_trivially_copyable_v<V> && std::is_trivially_copyable_v<K>);
    CHECK(std::is_trivially_destructible_v<V> && std::is_trivially_destructible_v<K>);
    CHECK(sizeof(V) >= N * sizeof(T));
    // memory given to vector_aligned loads and stores
    CHECK(dpm::memory_alignment_v<V> % alignof(V) == 0 && dpm::memory_alignment_v<V> % alignof(T) == 0 && dpm::memory_alignment_v<K> % alignof(bool) == 0);
    CHECK((dpm::memory_alignment_v<V> & (dpm::memory_alignment_v<V> - 1)) == 0 && dpm::memory_alignment_v<V> > 0);
    CHECK((dpm::memory_alignment_v<V, double>) % alignof(double) == 0 && (dpm::memory_alignment_v<V, char>) > 0);
    native<V, N>();
    native<K, N>();
    [&]<class... Us>(std::tuple<Us...> *) { (rebind<Us, V, N>(), ...); (rebind<Us, K, N>(), ...); }(static_cast<TYPES *>(nullptr));
    [&]<std::size_t... Ms>(std::index_sequence<Ms...>) { (resize<V, Ms>(), ...); (resize<K, Ms>(), ...); }(std::index_sequence<1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32>{});
    // deduction accepts a fitting hint, whichever place it has in the list
    CHECK(dpm::simd<T, dpm::simd_abi::deduce_t<T, N, A>>::size() == N);
    CHECK(dpm::simd<T, dpm::simd_abi::deduce_t<T, N, dpm::simd_abi::scalar, A>>::size() == N);
    if constexpr (std::is_same_v<A, dpm::simd_abi::scalar>) CHECK(std::is_same_v<dpm::simd_abi::deduce_t<T, N, A>, A>);
    else CHECK(std::is_same_v<dpm::simd_abi::deduce_t<T, N, A>, A> || N == 1);
    // a value passes through unchanged
    T a[N], b[N];
    for (std::size_t i = 0; i < N; ++i) a[i] = T(i * 3 + 1);
    V x(a, dpm::element_aligned);
    x.copy_to(b, dpm::element_aligned);
    CHECK(!std::memcmp(a, b, sizeof a));
}
template<std::size_t N, std::size_t Align> static void aligned()
{
    using A = dpm::simd_abi::ext::aligned_vector<N, Align>;
    if (!site(std::string(tn<T>()) + "/v" + std::to_string(N) + "a" + (Align == PACKED ? std::string("packed") : std::to_string(Align)))) return;
    at = "aligned_vector<" + std::to_string(N) + ", " + (Align == PACKED ? std::string("packed") : std::to_string(Align)) + ">";
    n_checks = 0;
    type<A, N>();
    using V = dpm::simd<T, A>;
    if (Align && Align != PACKED) CHECK(alignof(V) >= Align && alignof(V) % Align == 0);
    if (Align == PACKED) CHECK(alignof(V) == alignof(T) && sizeof(V) == N * sizeof(T) && std::is_same_v<A, dpm::simd_abi::ext::packed_buffer<N>>);
    if (Align == 0) CHECK(std::is_same_v<A, dpm::simd_abi::fixed_size<N>> && std::is_same_v<V, dpm::fixed_size_simd<T, N>> && std::is_same_v<dpm::simd_mask<T, A>, dpm::fixed_size_simd_mask<T, N>>);
    CHECK(alignof(V) >= alignof(T) && alignof(dpm::simd_mask<T, A>) >= 1);
    ++states;
    count(n_checks, n_checks);
}
template<std::size_t N> static void size()
{
    aligned<N, 0>();
    aligned<N, 16>();
    aligned<N, 32>();
    aligned<N, PACKED>();
    if (N == 2 || N == 4 || N == 7 || N == 32) aligned<N, 64>();
    if (!site(std::string(tn<T>()) + "/deduce" + std::to_string(N))) return;
    at = "deduce_t<T, " + std::to_string(N) + ">";
    n_checks = 0;
    using D = dpm::simd_abi::deduce_t<T, N>;
    CHECK(dpm::is_abi_tag_v<D> && dpm::simd_size_v<T, D> == N && dpm::simd<T, D>::size() == N);
    if (N == 1) CHECK(std::is_same_v<D, dpm::simd_abi::scalar>);
    CHECK(dpm::simd_size_v<T, dpm::simd_abi::deduce_t<T, N, dpm::simd_abi::native<T>>> == N && dpm::simd_size_v<T, dpm::simd_abi::deduce_t<T, N, dpm::simd_abi::compatible<T>>> == N);
    CHECK(dpm::simd_size_v<T, dpm::simd_abi::deduce_t<T, N, dpm::simd_abi::native<T>, dpm::simd_abi::compatible<T>>> == N);
    CHECK(std::is_same_v<dpm::simd_abi::deduce_t<T, N, dpm::simd_abi::fixed_size<N>>, dpm::simd_abi::fixed_size<N>>);
    // common tags
    using A = dpm::simd_abi::ext::aligned_vector<N, 16>;
    using B = dpm::simd_abi::ext::aligned_vector<N, 32>;
    using C = dpm::simd_abi::ext::aligned_vector<N + 3, 16>;
    CHECK(std::is_same_v<dpm::simd_abi::ext::common_t<A>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<A, A>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<A, B>, B> && std::is_same_v<dpm::simd_abi::ext::common_t<B, A>, B>);
    CHECK(std::is_same_v<dpm::simd_abi::ext::common_t<A, C>, C> && std::is_same_v<dpm::simd_abi::ext::common_t<C, A>, C> && std::is_same_v<dpm::simd_abi::ext::common_t<C, B, A>, dpm::simd_abi::ext::aligned_vector<N + 3, 32>>);
    CHECK(std::is_same_v<dpm::simd_abi::ext::common_t<A, dpm::simd_abi::scalar>, A> && std::is_same_v<dpm::simd_abi::ext::common_t<dpm::simd_abi::scalar, A, C>, C>);
    ++states;
    count(n_checks, n_checks);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    if (site(std::string(tn<T>()) + "/general"))
    {
        at = "general";
        n_checks = 0;
        using S = dpm::simd_abi::scalar;
        type<S, 1>();
        CHECK(sizeof(dpm::simd<T, S>) == sizeof(T) && alignof(dpm::simd<T, S>) == alignof(T));
        CHECK(dpm::simd_abi::max_fixed_size<T> >= 32);
        using N = dpm::native_simd<T>;
        using C = dpm::simd<T, dpm::simd_abi::compatible<T>>;
        CHECK(std::is_same_v<N, dpm::simd<T, dpm::simd_abi::native<T>>> && dpm::is_simd_v<dpm::simd<T>> && dpm::is_simd_mask_v<dpm::simd_mask<T>> && std::is_same_v<typename dpm::simd<T>::mask_type, dpm::simd_mask<T>> && std::is_same_v<dpm::native_simd_mask<T>, typename N::mask_type>);
        CHECK(C::size() == 16 / sizeof(T) && sizeof(C) == 16 && dpm::simd_size_v<T> == C::size());
#ifdef __AVX__
        CHECK(N::size() == 32 / sizeof(T) && sizeof(N) == 32 && std::is_same_v<dpm::simd_abi::ext::avx<T>, dpm::simd_abi::native<T>>);
#else
        CHECK(N::size() == 16 / sizeof(T) && sizeof(N) == 16);
#endif
        CHECK(std::is_same_v<dpm::simd_abi::ext::sse<T>, dpm::simd_abi::compatible<T>>);
        CHECK(dpm::is_simd_flag_type_v<dpm::vector_aligned_tag> && dpm::is_simd_flag_type_v<dpm::element_aligned_tag> && dpm::is_simd_flag_type_v<dpm::overaligned_tag<64>> && !dpm::is_simd_flag_type_v<int>);
        CHECK(!dpm::is_abi_tag_v<int> && !dpm::is_simd_v<T> && !dpm::is_simd_mask_v<bool>);
        CHECK(std::is_same_v<dpm::simd_abi::ext::common_t<S>, S> && std::is_same_v<dpm::simd_abi::ext::common_t<S, S, S>, S>);
        CHECK(dpm::simd_size_v<long double, dpm::simd_abi::scalar> == 1 && dpm::fixed_size_simd<long double, 5>::size() == 5);
        ++states;
        count(n_checks, n_checks);
    }
    [&]<std::size_t... Ns>(std::index_sequence<Ns...>) { (size<Ns + 1>(), ...); }(std::make_index_sequence<40>{});
    return finish();
}
