// Generated enumerations and padding members against the documented assignment of their spare values.
#pragma once
#include "p04_common.hpp"
#include "p05_common.hpp"
#include "p07_common.hpp"
enum class Other08 : unsigned { x, y }; inline constexpr int g08 = 3;
struct Lit08 { int a; };
template<class E, class U = std::underlying_type_t<E>> U under(const E& e) { U u; std::memcpy(&u, &e, sizeof u); return u; }
template<class E> E from_under(std::underlying_type_t<E> u) { E e; std::memcpy(&e, &u, sizeof e); return e; }
// kind 0: no spare value may be used; 1: searched for; 2: [first, last] as documented
struct Doc08 { int kind; std::int64_t first, last; bool small; };
template<class E> struct Legit08; // data, size, doc
template<class E> bool legit08(u64 bits) { for (std::size_t i = 0; i < Legit08<E>::size; ++i) if (Legit08<E>::data[i] == bits) return true; return false; }
template<class E> u64 bits08(const E& e) { return u64(std::make_unsigned_t<std::underlying_type_t<E>>(under(e))); }
template<class E> void no_value_is_a_level(Case& c) {
    using Tr = opt::option_traits<E>; using U = std::underlying_type_t<E>; constexpr std::uintmax_t max = Tr::max_level; constexpr Doc08 doc = Legit08<E>::doc; constexpr bool on = OPTION_USE_BUILTIN_TRAITS; u64 n = 0;
    if (doc.kind == 0 || !on) REQUIRE_MSG(max == 0 && sizeof(opt::option<E>) > sizeof(E), "%s: %llu levels although no spare value can be proven", Ty<E>::name(), (unsigned long long)max);
    if (doc.small && on) REQUIRE_MSG(sizeof(opt::option<E>) == sizeof(E) && sizeof(opt::option<opt::option<E>>) <= sizeof(E) + (max < 2) * alignof(E), "%s: the option is larger than the enumeration", Ty<E>::name());
    if (doc.kind == 2 && on) REQUIRE_MSG(max == std::uintmax_t(doc.last) - std::uintmax_t(doc.first) + 1, "%s: %llu levels", Ty<E>::name(), (unsigned long long)max);
    // no level is written as a legitimate value
    if constexpr (max > 0) for (std::uintmax_t l = 0; l < (max < 70000 ? max : 70000); ++l, ++n) { LevelBuf<E> x(0x5a); std::uintmax_t lv = l < 35000 ? l : max - 1 - (l - 35000); if (max < 70000) lv = l; Tr::set_level(x.p(), lv); pbt::opaque(x.b); REQUIRE(Tr::get_level(x.p()) == lv); E e; std::memcpy(&e, x.b, sizeof e); u64 b = bits08(e);
        REQUIRE_MSG(!legit08<E>(b), "%s: the legitimate value %llx marks emptiness", Ty<E>::name(), (unsigned long long)b);
        if (doc.kind == 2) REQUIRE_MSG(U(under(e)) == U(std::uintmax_t(doc.first) + lv), "%s: level %llu is stored as %llx", Ty<E>::name(), (unsigned long long)lv, (unsigned long long)b); }
    // every legitimate value is stored at every depth
    for (std::size_t i = 0; i < Legit08<E>::size; ++i, ++n) { E e = from_under<E>(U(Legit08<E>::data[i])); pbt::opaque(e);
        opt::option<E> a{e}; pbt::opaque(a); REQUIRE_MSG(a.has_value() && bits08(*a) == Legit08<E>::data[i], "%s: the value %llx is not kept", Ty<E>::name(), (unsigned long long)Legit08<E>::data[i]);
        opt::option<opt::option<opt::option<E>>> b{std::in_place, std::in_place, e}; pbt::opaque(b); REQUIRE_MSG(b.has_value() && b->has_value() && (*b)->has_value() && bits08(***b) == Legit08<E>::data[i], "%s: the value %llx is not kept in a nested option", Ty<E>::name(), (unsigned long long)Legit08<E>::data[i]);
        if constexpr (max > 0) REQUIRE_MSG(Tr::get_level(&e) >= max, "%s: the value %llx reads as a level", Ty<E>::name(), (unsigned long long)Legit08<E>::data[i]); }
    // documented ranges: everything else is a value
    if (doc.kind != 1 && sizeof(E) <= 2 && Legit08<E>::full_range) for (long v = (std::numeric_limits<U>::min)(); v <= long((std::numeric_limits<U>::max)()); ++v, ++n) {
        if (doc.kind == 2 && v >= doc.first && v <= doc.last) continue; E e = from_under<E>(U(v)); opt::option<E> a{e}; pbt::opaque(a); if (!a.has_value() || under(*a) != U(v)) FAIL("%s: the value %ld is not kept", Ty<E>::name(), v); opt::option<opt::option<E>> b{a}; pbt::opaque(b); if (!b || !*b || under(**b) != U(v)) FAIL("%s: the value %ld is not kept in a nested option", Ty<E>::name(), v); }
    pbt::count_evals(n, n); c.log("%s: %zu legitimate values, %llu levels", Ty<E>::name(), std::size_t(Legit08<E>::size), (unsigned long long)max); c.nontrivial();
}
#define EN08(E, NAME, KIND, FIRST, LAST, SMALL, FULL, ...) \
    template<> struct Legit08<E> { static constexpr u64 data[] = {__VA_ARGS__}; static constexpr std::size_t size = sizeof(data) / sizeof(*data); static constexpr Doc08 doc{KIND, std::int64_t(FIRST), std::int64_t(LAST), SMALL}; static constexpr bool full_range = FULL; }; \
    template<> struct Ty<E> { static E make(u64 s) { return from_under<E>(std::underlying_type_t<E>(Legit08<E>::data[s % Legit08<E>::size])); } static bool same(const E& v, u64 s) { return bits08(v) == Legit08<E>::data[s % Legit08<E>::size]; } static const char* name() { return NAME; } };
#define RE08(E, NAME) REG_ONCE("values " NAME, (&no_value_is_a_level<E>)); REGW("stored " NAME, (&stored<E>), 0.5); REGW("levels " NAME, (&level_case_if<E>), 0.3);
#define RN08(E, NAME, K) REGW("nested " NAME, (&nested<E, K>), 0.5);
// ---- padding members: PADDING stays 0 for every value and the documented number of levels is available
template<class T> struct Pad08;
template<class T> void padding(Case& c) {
    using Tr = opt::option_traits<T>; using P = typename Pad08<T>::member; constexpr std::uintmax_t max = Tr::max_level; constexpr bool on = OPTION_USE_BUILTIN_TRAITS;
    if (on) REQUIRE_MSG(max == std::uintmax_t((std::numeric_limits<P>::max)()), "%s: %llu levels", Ty<T>::name(), (unsigned long long)max);
    if (on) REQUIRE_MSG(sizeof(opt::option<T>) == sizeof(T), "%s: the option is larger than the value", Ty<T>::name());
    u64 s = c.interesting(), t = c.interesting(); static const unsigned char f[] = {0, 0xff, 0x5a, 1}; Box<opt::option<T>> o(f[c.pick(4)]); int n = 1 + int(c.pick(8)); bool full = false;
    auto look = [&](const char* w) { pbt::opaque(*o); REQUIRE_MSG(o->has_value() == full, "%s: has_value()=%d after %s", Ty<T>::name(), int(o->has_value()), w); if (full) { REQUIRE_MSG(Ty<T>::same(**o, s), "%s: the value changed in %s", Ty<T>::name(), w); REQUIRE_MSG((**o).PADDING == P(0), "%s: PADDING of a value is not 0 after %s", Ty<T>::name(), w); } };
    for (int k = 0; k < n; ++k) {
        switch (c.pick(8)) {
        case 0: o->emplace(Ty<T>::make(t)); s = t; full = true; look("emplace"); break;
        case 1: o->reset(); full = false; look("reset"); break;
        case 2: *o = Ty<T>::make(t); s = t; full = true; look("assignment"); break;
        case 3: { opt::option<T> x{Ty<T>::make(t)}; o->swap(x); std::swap(s, t); REQUIRE(x.has_value() == full); full = true; look("swap"); break; }
        case 4: if (full) { **o = Ty<T>::make(t); s = t; look("assignment through the option"); } break;
        case 5: { auto x = o->take(); REQUIRE(x.has_value() == full); if (full) REQUIRE(Ty<T>::same(*x, s)); full = false; look("take"); break; }
        case 6: { opt::option<opt::option<T>> x{std::in_place, *o}; pbt::opaque(x); REQUIRE(x.has_value() && x->has_value() == full); if (full) REQUIRE(Ty<T>::same(**x, s)); x->reset(); pbt::opaque(x); REQUIRE(x.has_value() && !x->has_value()); x.reset(); pbt::opaque(x); REQUIRE(!x.has_value()); break; }
        default: { auto x = *o; look("copy"); REQUIRE(x.has_value() == full); if (full) REQUIRE(Ty<T>::same(*x, s)); } }
        t = mix(t + 1);
    }
    c.nontrivial();
}
#define PD08(T, P, NAME) template<> struct Pad08<T> { using member = P; };
#define RP08(T, NAME) REG("padding " NAME, (&padding<T>)); REGW("stored " NAME, (&stored<T>), 0.5); REGW("levels " NAME, (&level_case_if<T>), 0.3);
