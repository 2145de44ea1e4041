// Lifetimes: the registry follows every object; each operation has an exact number of lifetime events.
#pragma once
#include "model.hpp"

struct Snap { long ctor, dtor, copies, moves, ca, ma, vc; };
inline Snap snap() { auto& s = reg::st(); return {s.ctor, s.dtor, s.copies, s.moves, s.copy_assign, s.move_assign, s.value_ctor}; }
// expected events per contained leaf object
struct Ev { int copies = 0, moves = 0, ca = 0, ma = 0, dtor = 0, vc = 0; };
template<class T> void events(const char* what, const Snap& b, const Ev& e, bool es, bool ed) {
    Snap a = snap(); long k = live_per_value<T>;
#define EV(f, g, text) REQUIRE_MSG(a.f - b.f == k * e.g, "%s (destination %s, source %s): %ld %s, expected %ld", what, ed ? "full" : "empty", es ? "full" : "empty", a.f - b.f, text, k * long(e.g))
    EV(copies, copies, "copy constructions"); EV(moves, moves, "move constructions"); EV(ca, ca, "copy assignments"); EV(ma, ma, "move assignments"); EV(dtor, dtor, "destructions"); EV(vc, vc, "value constructions");
#undef EV
}
template<class T> void exact(Case& c) {
    using V = std::remove_const_t<T>; using O = opt::option<T>; using Y = Ty<V>;
    constexpr bool copyable = std::is_copy_constructible_v<V>, cassign = copyable && std::is_copy_assignable_v<T>, massign = std::is_move_assignable_v<T>, mv = std::is_move_constructible_v<V>;
    // a type without a move constructor (but with a copy constructor) is copied where others are moved
    constexpr bool copies_only = copyable && std::is_same_v<V, CopyOnly>;
    constexpr bool is_const = std::is_const_v<T>;
    reg::reset();
    {
        static const unsigned char fills[] = {0, 0xff, 0x01};
        bool ed = c.coin(), es = c.coin(); u64 s1 = c.interesting(), s2 = c.interesting();
        int op = int(c.pick(22));
        Box<O> d(fills[c.pick(3)]), s(fills[c.pick(3)]);
        if (ed) d->emplace(Y::make(s1)); if (es) s->emplace(Y::make(s2));
        auto mvc = [&](int n) { Ev e; (copies_only || is_const ? e.copies : e.moves) = n; return e; };
        auto mva = [&](int n) { Ev e; (copies_only ? e.ca : e.ma) = n; return e; };
        int live0 = reg::live();
        c.log("op %d, destination %s, source %s (%s)", op, ed ? "full" : "empty", es ? "full" : "empty", Y::name());
        Snap b = snap();
        auto state = [&](const O& o, bool want, u64 sp, const char* n) { REQUIRE_MSG(o.has_value() == want, "%s: has_value()=%d", n, int(o.has_value())); if (want) REQUIRE_MSG(Y::same(o.get(), sp), "%s: wrong value", n); };
        switch (op) {
        case 0: if constexpr (cassign) { const V v = Y::make(s2); b = snap(); *d = v; Ev e; (ed ? e.ca : e.copies) = 1; events<T>("assignment of an lvalue", b, e, true, ed); state(*d, true, s2, "assignment"); } break;
        case 1: if constexpr (massign) { V v = Y::make(s2); b = snap(); *d = static_cast<V&&>(v); events<T>("assignment of an rvalue", b, ed ? mva(1) : mvc(1), true, ed); state(*d, true, s2, "assignment"); } break;
        case 2: if constexpr (cassign) { *d = static_cast<const O&>(*s); Ev e; if (es) (ed ? e.ca : e.copies) = 1; else e.dtor = ed; events<T>("copy assignment", b, e, es, ed); state(*d, es, s2, "copy assignment"); state(*s, es, s2, "source of a copy assignment"); } break;
        case 3: if constexpr (massign) { *d = static_cast<O&&>(*s); Ev e; if (es) e = ed ? mva(1) : mvc(1); else e.dtor = ed; events<T>("move assignment", b, e, es, ed); state(*d, es, s2, "move assignment"); REQUIRE_MSG(s->has_value() == es, "the source of a move assignment changed its state"); } break;
        case 4: { *d = opt::none; Ev e; e.dtor = ed; events<T>("assignment of none", b, e, es, ed); REQUIRE(!d->has_value()); } break;
        case 5: { d->reset(); Ev e; e.dtor = ed; events<T>("reset", b, e, es, ed); REQUIRE(!d->has_value()); } break;
        case 6: if constexpr (mv) { V v = Y::make(s2); b = snap(); d->emplace(static_cast<V&&>(v)); Ev e; (copies_only ? e.copies : e.moves) = 1; e.dtor = ed; events<T>("emplace", b, e, true, ed); state(*d, true, s2, "emplace"); } break;
        case 7: if constexpr (mv) { V v = Y::make(s2); b = snap(); d->try_emplace(static_cast<V&&>(v)); Ev e; if (!ed) (copies_only ? e.copies : e.moves) = 1; events<T>("try_emplace", b, e, true, ed); state(*d, true, ed ? s1 : s2, "try_emplace"); } break;
        case 8: if constexpr (mv) { { O t = d->take(); Ev e = ed ? mvc(1) : Ev{}; e.dtor = ed; events<T>("take", b, e, es, ed); state(t, ed, s1, "take"); REQUIRE(!d->has_value()); } } break;
        case 9: if constexpr (mv) { bool yes = c.coin(); { O t = d->take_if([&](auto&) { return yes; }); bool tk = ed && yes; Ev e = tk ? mvc(1) : Ev{}; e.dtor = tk; events<T>("take_if", b, e, es, ed); state(t, tk, s1, "take_if"); state(*d, ed && !yes, s1, "take_if"); } } break;
        case 10: if constexpr (copyable) { O t(static_cast<const O&>(*d)); Ev e; e.copies = ed; events<T>("copy construction", b, e, es, ed); state(t, ed, s1, "copy construction"); } break;
        case 11: if constexpr (mv && (!is_const || copyable)) { O t(static_cast<O&&>(*d)); events<T>("move construction", b, ed ? mvc(1) : Ev{}, es, ed); state(t, ed, s1, "move construction"); REQUIRE(d->has_value() == ed); } break;
        case 12: if constexpr (mv && std::is_swappable_v<T> && massign) { d->swap(*s); Ev e; if (ed && es) { if (copies_only) { e.copies = 1; e.ca = 2; } else { e.moves = 1; e.ma = 2; } e.dtor = 1; } else if (ed || es) { e = mvc(1); e.dtor = 1; } events<T>("swap", b, e, es, ed); state(*d, es, s2, "swap"); state(*s, ed, s1, "swap"); } break;
        case 13: { // read-only operations construct and destroy nothing
            (void)d->has_value(); (void)d->has_value_and([](const V&) { return true; }); (void)d->inspect([](const V&) {}); (void)d->map([](const V&) { return 1; }); (void)d->ptr_or_null(); for (auto& x : *d) (void)x; (void)(*d == opt::none);
            (void)d->and_then([](const V& v) { return opt::option<int>(1); }); (void)d->map_or(1, [](const V&) { return 2; }); if (ed) { (void)d->get(); (void)**d; (void)d->value(); (void)static_cast<O&&>(*d).get(); }
            auto ref = d->map([](auto& x) -> auto& { return x; }); REQUIRE(ref.has_value() == ed);
            events<T>("read-only operations", b, Ev{}, es, ed); state(*d, ed, s1, "read-only operations"); } break;
        case 14: if constexpr (copyable && mv) { { V v = Y::make(s2); b = snap(); V r = static_cast<const O&>(*d).value_or(static_cast<const V&>(v)); Ev e; e.copies = 1; events<T>("value_or", b, e, es, ed); } state(*d, ed, s1, "value_or"); } break;
        case 15: if constexpr (mv && !is_const) { { V v = Y::make(s2); b = snap(); V r = static_cast<O&&>(*d).value_or(static_cast<V&&>(v)); events<T>("value_or on an rvalue", b, mvc(1), es, ed); } } break;
        case 16: if constexpr (cassign) { *d = static_cast<const O&>(*d); Ev e; e.ca = ed; events<T>("self copy assignment", b, e, ed, ed); state(*d, ed, s1, "self copy assignment"); } break;
        case 17: if constexpr (massign && mv) { d->emplace(Y::make(s2)); d->reset(); d->reset(); *d = opt::none; REQUIRE(reg::live() == live0 - (ed ? live_per_value<T> : 0)); } break;
        case 18: if constexpr (mv && (!is_const || copyable)) { // through a function and a vector
            { std::vector<O> v; v.reserve(1); v.push_back(static_cast<O&&>(*d)); v.reserve(v.capacity() + 1); v.emplace_back(opt::none); v.clear(); } REQUIRE_MSG(reg::live() == live0, "%d objects are alive after a vector of options is gone, expected %d", reg::live(), live0); } break;
        case 19: if constexpr (mv) { V v = Y::make(s2); b = snap(); { O t(std::in_place, static_cast<V&&>(v)); Ev e; (copies_only ? e.copies : e.moves) = 1; events<T>("in-place construction", b, e, es, ed); } Ev e; (copies_only ? e.copies : e.moves) = 1; e.dtor = 1; events<T>("in-place construction and destruction", b, e, es, ed); } break;
        case 20: if constexpr (mv) { V v = Y::make(s2); b = snap(); { O t(static_cast<V&&>(v)); Ev e; (copies_only ? e.copies : e.moves) = 1; events<T>("construction from a value", b, e, es, ed); } } break;
        default: { auto r = d->map([&](const V&) { return Y::make(s2); }); if constexpr (std::is_same_v<V, TrackedN<1>>) { Ev e; e.vc = ed; events<T>("map to the same type: the result is constructed in place", b, e, es, ed); } REQUIRE(r.has_value() == ed); } break;
        }
        c.nontrivial(ed || es);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects outlive their options", reg::live());
}
#define EX(...) REG("events " #__VA_ARGS__, (&exact<__VA_ARGS__>));
struct AggTB { TrackedN<1> t; bool b; };
struct AggBT { bool b; TrackedN<1> t; };
template<> inline constexpr int live_per_value<AggTB> = 1;
template<> inline constexpr int live_per_value<AggBT> = 1;
template<> struct Ty<AggTB> { static AggTB make(u64 s) { return AggTB{TrackedN<1>(s), (s & 1) != 0}; } static bool same(const AggTB& v, u64 s) { v.t.check(); return v.t.v == s && Ty<bool>::same(v.b, s); } static const char* name() { return "struct{Tracked;bool}"; } };
template<> struct Ty<AggBT> { static AggBT make(u64 s) { return AggBT{(s & 1) != 0, TrackedN<1>(s)}; } static bool same(const AggBT& v, u64 s) { v.t.check(); return v.t.v == s && Ty<bool>::same(v.b, s); } static const char* name() { return "struct{bool;Tracked}"; } };
