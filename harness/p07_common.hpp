// The level interface of option_traits: round trip, no aliasing, never below max_level for a value.
#pragma once
#include "p04_common.hpp"

template<class T> struct LevelBuf { alignas(T) unsigned char b[sizeof(T)]; T* p() { return reinterpret_cast<T*>(b); } explicit LevelBuf(unsigned char f) { std::memset(b, f, sizeof b); pbt::opaque(b); } };
template<class T> void level_case(Case& c) {
    using Tr = opt::option_traits<T>; constexpr std::uintmax_t max = Tr::max_level; using Y = Ty<T>;
    reg::reset();
    LevelBuf<T> x(fills04[c.pick(8)]), y(fills04[c.pick(8)]);
    auto level = [&] { switch (c.pick(5)) { case 0: return std::uintmax_t(0); case 1: return max - 1; case 2: return std::uintmax_t(c.u32()) % max; case 3: return c.u64() % max; default: return std::uintmax_t(c.pick(8)) % max; } };
    std::uintmax_t n = level(), m = level(); u64 s = spec04(c);
    c.log("%s: levels %llu and %llu of %llu, spec %llx", Y::name(), (unsigned long long)n, (unsigned long long)m, (unsigned long long)max, (unsigned long long)s);
    auto get = [&](const T* p) { pbt::opaque(*reinterpret_cast<const unsigned char (*)[sizeof(T)]>(p)); return std::uintmax_t(Tr::get_level(p)); };
    Tr::set_level(x.p(), n); REQUIRE_MSG(get(x.p()) == n, "%s: level %llu was written, level %llu is read", Y::name(), (unsigned long long)n, (unsigned long long)get(x.p()));
    Tr::set_level(y.p(), m); REQUIRE_MSG(get(y.p()) == m, "%s: level %llu was written, level %llu is read", Y::name(), (unsigned long long)m, (unsigned long long)get(y.p()));
    REQUIRE_MSG((get(x.p()) == get(y.p())) == (n == m), "%s: levels alias", Y::name());
    if (std::is_trivially_copyable_v<T>) { LevelBuf<T> z(0x33); std::memcpy(z.b, x.b, sizeof(T)); REQUIRE_MSG(get(z.p()) == n, "%s: the level does not survive a copy of the bytes", Y::name()); }
    Tr::set_level(x.p(), m); REQUIRE_MSG(get(x.p()) == m, "%s: level %llu over level %llu reads as %llu", Y::name(), (unsigned long long)m, (unsigned long long)n, (unsigned long long)get(x.p()));
    // a value over a level, and a level over a destroyed value
    { T* v = ::new (static_cast<void*>(x.b)) T(Y::make(s)); REQUIRE_MSG(get(v) >= max, "%s: a value (spec %llx) reads as level %llu of %llu", Y::name(), (unsigned long long)s, (unsigned long long)get(v), (unsigned long long)max);
      if constexpr (std::is_copy_constructible_v<T>) { T w(*v); REQUIRE_MSG(get(&w) >= max, "%s: a copy of a value reads as a level", Y::name()); }
      if constexpr (std::is_move_constructible_v<T>) { T w(static_cast<T&&>(*v)); REQUIRE_MSG(get(&w) >= max && get(v) >= max, "%s: a moved or moved-from value reads as a level", Y::name()); }
      REQUIRE(get(v) >= max); v->~T(); }
    Tr::set_level(x.p(), n); REQUIRE_MSG(get(x.p()) == n, "%s: level %llu over a destroyed value reads as %llu", Y::name(), (unsigned long long)n, (unsigned long long)get(x.p()));
    REQUIRE_MSG(get(y.p()) == m, "%s: another object's level changed", Y::name());
    c.nontrivial();
}
// every level once (or a spread of them), and the advertised number
template<class T> void level_all(Case& c, std::uintmax_t want, bool exact) {
    using Tr = opt::option_traits<T>; constexpr std::uintmax_t max = Tr::max_level; LevelBuf<T> x(0xa5);
    if (exact) REQUIRE_MSG(max == want, "%s: %llu levels are advertised, %llu are documented", Ty<T>::name(), (unsigned long long)max, (unsigned long long)want);
    std::uintmax_t step = max > 70000 ? max / 4001 : 1; u64 n = 0;
    if constexpr (max > 0) for (std::uintmax_t l = 0; l < max; ++n) { Tr::set_level(x.p(), l); pbt::opaque(x.b); REQUIRE_MSG(Tr::get_level(x.p()) == l, "%s: level %llu reads as %llu", Ty<T>::name(), (unsigned long long)l, (unsigned long long)Tr::get_level(x.p())); if (max - l <= step && l != max - 1) l = max - 1; else if (l == max - 1) break; else l += step; }
    pbt::count_evals(n + 1, n + 1); c.nontrivial();
}
template<class T> void level_case_if(Case& c) { if constexpr (opt::option_traits<T>::max_level > 0) level_case<T>(c); }
template<std::uintmax_t Want, bool Exact, class T> void level_all_fn(Case& c) { level_all<T>(c, Want, Exact); }
// name of the type, documented number of levels
#define LV(want, ...) REG("levels " #__VA_ARGS__, (&level_case_if<__VA_ARGS__>)); REG_ONCE("all levels " #__VA_ARGS__, (&level_all_fn<(want), true, __VA_ARGS__>));
#define LVX(...) REG("levels " #__VA_ARGS__, (&level_case_if<__VA_ARGS__>)); REG_ONCE("all levels " #__VA_ARGS__, (&level_all_fn<0, false, __VA_ARGS__>));
#if OPTION_USE_BUILTIN_TRAITS
#define B07(x) (x)
#else
#define B07(x) 0
#endif
#ifdef OPTION_HAS_PFR
#define R07(x) B07(x)
#else
#define R07(x) 0
#endif
