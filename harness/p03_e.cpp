// Trivially destructible types that throw, and conversions that throw on the way into an option of any type.
#include "p03_common.hpp"
// throws from every constructor and assignment; the destructor is trivial
template<int N> struct TD {
    u64 v; explicit TD(u64 x) : v(0) { reg::point(); v = x; }
    TD(const TD& o) : v(0) { reg::point(); v = o.v; } TD(TD&& o) : v(0) { reg::point(); v = o.v; }
    TD& operator=(const TD& o) { reg::point(); v = o.v; return *this; } TD& operator=(TD&& o) { reg::point(); v = o.v; return *this; }
    friend bool operator==(const TD& a, const TD& b) { return a.v == b.v; } friend bool operator!=(const TD& a, const TD& b) { return a.v != b.v; }
};
// only the construction from a value throws: copies are trivial
template<int N> struct TV { u64 v; explicit TV(u64 x) : v(0) { reg::point(); v = x; } friend bool operator==(const TV& a, const TV& b) { return a.v == b.v; } };
template<template<int> class W> struct LevelsOf {
    static constexpr std::uintmax_t max_level = 3; static constexpr u64 base = 0xfffffffffffffff0ull;
    static std::uintmax_t get_level(const W<1>* p) noexcept { u64 x; std::memcpy(&x, static_cast<const void*>(p), 8); return x - base; }
    static void set_level(W<1>* p, std::uintmax_t l) noexcept { u64 x = base + l; std::memcpy(static_cast<void*>(p), &x, 8); }
};
template<> struct opt::option_traits<TD<1>> : LevelsOf<TD> {};
template<> struct opt::option_traits<TV<1>> : LevelsOf<TV> {};
#define TYT(W) template<int N> struct Ty<W<N>> { static W<N> make(u64 s) { return W<N>(s & 0xffffffffull); } static bool same(const W<N>& v, u64 s) { return v.v == (s & 0xffffffffull); } static const char* name() { return #W; } };
TYT(TD) TYT(TV)
struct AggTD { TD<0> a; bool b; bool operator==(const AggTD& o) const { return a == o.a && b == o.b; } };
template<> struct Ty<AggTD> { static AggTD make(u64 s) { return AggTD{TD<0>(s & 0xff), (s & 1) != 0}; } static bool same(const AggTD& v, u64 s) { return v.a.v == (s & 0xff) && v.b == ((s & 1) != 0); } static const char* name() { return "AggTD"; } };
namespace {
using D0 = TD<0>; using D1 = TD<1>; using ptb = std::pair<TD<0>, bool>; using pbt_ = std::pair<bool, TD<0>>; using pd1 = std::pair<TD<1>, int>; using tup = std::tuple<bool, TD<0>, int>; using arr = std::array<TD<1>, 2>; using oD0 = opt::option<TD<0>>; using oD1 = opt::option<TD<1>>; using ooD1 = opt::option<oD1>;
INJ(D0)
INJ(D1)
INJ(ptb)
INJ(pbt_)
INJ(pd1)
INJ(tup)
INJ(arr)
INJ(AggTD)
// a source of a T whose conversion throws
template<class T> struct From { u64 s; operator T() const { reg::point(); return Ty<std::remove_const_t<T>>::make(s); } };
template<class T> void conversions(Case& c) {
    using V = std::remove_const_t<T>; using O = opt::option<T>; using Y = Ty<V>; constexpr bool asg = std::is_assignable_v<T&, V>;
    reg::reset();
    {
        static const unsigned char fills[] = {0, 0xff, 0x01, 0x02}; Box<O> d(fills[c.pick(4)]); bool ed = c.coin(); u64 s0 = c.interesting(), s1 = c.interesting(); if (ed) d->emplace(Y::make(s0));
        int op = int(c.pick(12)); bool fail = c.chance(2, 3); From<V> f{s1}; int left = 0; u64 want = s0;   // left: 0 as before, 2 empty, 3 the new value
        c.log("operation %d with a conversion to %s that %s; the option is %s", op, Y::name(), fail ? "throws" : "succeeds", ed ? "full" : "empty");
        bool threw = false, uses = true; pbt::opaque(*d); reg::st().throw_in = fail ? 0 : -1;
        try {
            switch (op) {
            case 0: left = fail ? 2 : 3; { V& r = const_cast<V&>(d->emplace(f)); REQUIRE(std::addressof(r) == std::addressof(d->get())); } break;
            case 1: uses = !ed; left = ed ? 0 : fail ? 2 : 3; d->try_emplace(f); break;
            case 2: if constexpr (asg) { left = fail ? 0 : 3; *d = f; } else uses = false; break;
            case 3: if constexpr (asg) { left = fail ? 0 : 3; opt::option<From<V>> of(f); *d = of; } else uses = false; break;
            case 4: if constexpr (asg) { left = fail ? 0 : 3; *d = opt::option<From<V>>(f); } else uses = false; break;
            case 5: if constexpr (asg) { uses = !ed; left = ed || fail ? 0 : 3; *d |= f; } else uses = false; break;
            case 6: { uses = !ed; auto v = (*d).value_or(f); REQUIRE(Y::same(v, ed ? s0 : s1)); } break;
            case 7: { uses = !ed; auto v = (*d).value_or_construct(f); REQUIRE(Y::same(v, ed ? s0 : s1)); } break;
            case 8: { O t(std::in_place, f); REQUIRE(Y::same(t.get(), s1)); } break;
            case 9: { opt::option<From<V>> of(f); O t(of); REQUIRE(Y::same(t.get(), s1)); } break;
            case 10: { auto t = opt::make_option<V>(f); REQUIRE(Y::same(t.get(), s1)); } break;
            default: { uses = !ed; auto v = *d | f; REQUIRE(Y::same(v, ed ? s0 : s1)); } break;
            }
        } catch (const reg::boom&) { threw = true; }
        reg::st().throw_in = -1;
        REQUIRE_MSG(threw == (fail && uses), "operation %d with a conversion to %s: the exception was %s", op, Y::name(), threw ? "invented" : "lost");
        bool full = left == 0 ? ed : left == 3; if (left == 3) want = s1; pbt::opaque(*d);
        REQUIRE_MSG(d->has_value() == full && bool(*d) == full && (*d != opt::none) == full, "operation %d with a conversion to %s (threw: %d): has_value()=%d, expected %d", op, Y::name(), int(threw), int(d->has_value()), int(full));
        if (full) REQUIRE_MSG(Y::same(d->get(), want), "operation %d with a conversion to %s (threw: %d): wrong value", op, Y::name(), int(threw));
        // still usable
        d->emplace(Y::make(s1)); REQUIRE(d->has_value() && Y::same(d->get(), s1)); d->reset(); REQUIRE(!d->has_value());
        c.nontrivial(threw);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects outlive their options", reg::live());
}
#define CONV(...) REGW("conversions that throw " #__VA_ARGS__, (&conversions<__VA_ARGS__>), 0.4);
using V0 = TV<0>; using V1 = TV<1>; using pvb = std::pair<TV<0>, bool>;
CONV(V0) CONV(V1) CONV(pvb) CONV(int) CONV(const int) CONV(double) CONV(bool) CONV(int*) CONV(std::string) CONV(const std::string) CONV(std::string_view) CONV(std::vector<int>) CONV(ES) CONV(E8)
CONV(std::pair<int, bool>) CONV(std::tuple<int, double>) CONV(sent_int) CONV(UTN<false>)
}
