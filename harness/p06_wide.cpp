// The element or member whose spare states are used may be at any position of a wide composition.
#include "p06_common.hpp"
namespace {
template<std::size_t At, std::size_t K, class Special> using sel = std::conditional_t<At == K, Special, int>;
template<std::size_t K, class S, class Seq> struct tup; template<std::size_t K, class S, std::size_t... I> struct tup<K, S, std::index_sequence<I...>> { using type = std::tuple<sel<I, K, S>...>; };
template<std::size_t N, std::size_t K, class S> using tup_t = typename tup<K, S, std::make_index_sequence<N>>::type;
// two special positions: the one with more spare states decides
template<std::size_t K, std::size_t L, class Seq> struct tup2; template<std::size_t K, std::size_t L, std::size_t... I> struct tup2<K, L, std::index_sequence<I...>> { using type = std::tuple<std::conditional_t<I == K, bool, sel<I, L, int*>>...>; };
template<std::size_t N, std::size_t K, std::size_t L> using tup2_t = typename tup2<K, L, std::make_index_sequence<N>>::type;
template<class T, std::uintmax_t Level> void one(const char* what, std::size_t n, std::size_t k) {
    REQUIRE_MSG(opt::option_traits<T>::max_level == Level, "%s of %zu with the special one at %zu: %llu levels, expected %llu", what, n, k, (unsigned long long)opt::option_traits<T>::max_level, (unsigned long long)Level);
    REQUIRE_MSG((sizeof(opt::option<T>) == sizeof(T)) == (Level > 0), "%s of %zu with the special one at %zu: wrong size of the option", what, n, k);
    REQUIRE((sizeof(opt::option<opt::option<T>>) == sizeof(T)) == (Level > 1));
    alignas(T) unsigned char buf[sizeof(opt::option<T>)]; std::memset(buf, int(k & 1) * 255, sizeof buf); auto* o = ::new (buf) opt::option<T>; pbt::opaque(*o);
    REQUIRE(!o->has_value()); o->emplace(); pbt::opaque(*o); REQUIRE(o->has_value()); o->reset(); pbt::opaque(*o); REQUIRE(!o->has_value()); o->~option();
}
template<std::size_t N, std::size_t... K> void tuples(Case& c, std::index_sequence<K...>) {
    (one<tup_t<N, K, bool>, B06(254)>("a tuple", N, K), ...); (one<tup_t<N, K, double>, B06(256)>("a tuple", N, K), ...); (one<tup2_t<N, K, (K * 7 + 3) % N>, (N > 1 && K != (K * 7 + 3) % N ? B06(512) : B06(254))>("a tuple", N, K), ...);
    pbt::count_evals(3 * N, 3 * N); c.nontrivial();
}
template<std::size_t N> void tuple_case(Case& c) { tuples<N>(c, std::make_index_sequence<N>{}); }
#define TW(N) REG_ONCE("wide tuple " #N, (&tuple_case<N>));
TW(1) TW(2) TW(3) TW(4) TW(5) TW(6) TW(7) TW(8) TW(9) TW(10) TW(12) TW(16) TW(17) TW(20) TW(24)
#define M(k) sel<k, K, S> m##k;
template<std::size_t K, class S> struct A3 { M(0) M(1) M(2) };
template<std::size_t K, class S> struct A6 { M(0) M(1) M(2) M(3) M(4) M(5) };
template<std::size_t K, class S> struct A9 { M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) };
template<std::size_t K, class S> struct A12 { M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) };
template<std::size_t K, class S> struct A18 { M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) };
#undef M
template<template<std::size_t, class> class A, std::size_t N, std::size_t... K> void aggs(Case& c, std::index_sequence<K...>) { (one<A<K, bool>, R06(254)>("a structure", N, K), ...); (one<A<K, float>, R06(256)>("a structure", N, K), ...); pbt::count_evals(2 * N, 2 * N); c.nontrivial(); }
template<template<std::size_t, class> class A, std::size_t N> void agg_case(Case& c) { aggs<A, N>(c, std::make_index_sequence<N>{}); }
#define AW(N) REG_ONCE("wide structure " #N, (&agg_case<A##N, N>));
AW(3) AW(6) AW(9) AW(12) AW(18)
}
