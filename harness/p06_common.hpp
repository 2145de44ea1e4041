// Sizes of options of generated types; each (type, depth) is one case of a finite enumeration.
#pragma once
#include "types.hpp"
#include <memory_resource>
template<class T, int K> struct nest6 { using type = opt::option<typename nest6<T, K - 1>::type>; };
template<class T> struct nest6<T, 0> { using type = T; };
template<class T, std::uintmax_t Level, int K> void size_at(u64& n, const char* name) {
    using O = typename nest6<T, K>::type; ++n;
    REQUIRE_MSG(alignof(O) == alignof(T), "%s nested %d times: alignment %zu, the contained type has %zu", name, K, alignof(O), alignof(T));
    if (std::uintmax_t(K) <= Level) REQUIRE_MSG(sizeof(O) == sizeof(T), "%s has %llu levels; nested %d times it takes %zu bytes instead of %zu", name, (unsigned long long)Level, K, sizeof(O), sizeof(T));
    // past the last level one separate flag is kept, which in turn lends 254 levels
    else if (OPTION_USE_BUILTIN_TRAITS) REQUIRE_MSG(sizeof(O) <= sizeof(T) + alignof(T) && sizeof(O) > sizeof(T), "%s has %llu levels; nested %d times it takes %zu bytes, expected at most %zu", name, (unsigned long long)Level, K, sizeof(O), sizeof(T) + alignof(T));
    else REQUIRE_MSG(sizeof(O) <= sizeof(T) + alignof(T) * (std::uintmax_t(K) - Level), "%s nested %d times takes %zu bytes", name, K, sizeof(O));
    // the option really stores its value inside of itself
    static_assert(sizeof(opt::option<O>) >= sizeof(O));
}
template<std::uintmax_t Level, class T> void sizes(Case& c) {
    using V = std::remove_const_t<T>; const char* name = Ty<V>::name(); u64 n = 0;
    c.log("%s: %zu bytes, %llu levels", name, sizeof(T), (unsigned long long)Level);
    size_at<T, Level, 1>(n, name); size_at<T, Level, 2>(n, name); size_at<T, Level, 3>(n, name); size_at<T, Level, 5>(n, name); size_at<T, Level, 12>(n, name);
    if constexpr (!std::is_const_v<T>) REQUIRE(sizeof(opt::option<const T>) == sizeof(opt::option<T>) && alignof(opt::option<const T>) == alignof(opt::option<T>));
    REQUIRE_MSG((sizeof(opt::option<T>) == sizeof(T)) == (Level > 0), "%s: the option is %sas large as the value", name, Level > 0 ? "not " : "");
    REQUIRE(sizeof(opt::option<T&>) == sizeof(void*) && sizeof(opt::option<const T&>) == sizeof(void*) && alignof(opt::option<T&>) == alignof(void*));
    REQUIRE(sizeof(opt::option<T>[7]) == 7 * sizeof(opt::option<T>));
    pbt::count_evals(n + 4, n + 4); c.nontrivial();
}
#define SZ(want, ...) REG_ONCE("sizes " #__VA_ARGS__, (&sizes<(want), __VA_ARGS__>));
#if OPTION_USE_BUILTIN_TRAITS
#define B06(x) (x)
#else
#define B06(x) 0
#endif
#ifdef OPTION_HAS_PFR
#define R06(x) B06(x)
#else
#define R06(x) 0
#endif
