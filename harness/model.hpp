// Reference-model state machine over several options of one contained type.
#pragma once
#include "types.hpp"
#include <algorithm>

// how many registered objects one contained value owns
template<class T> inline constexpr int live_per_value = 0;
template<int G, bool Th> inline constexpr int live_per_value<TrackedN<G, Th>> = 1;
template<> inline constexpr int live_per_value<MoveOnly> = 1;
template<> inline constexpr int live_per_value<CopyOnly> = 1;
template<bool Th> inline constexpr int live_per_value<UTN<Th>> = 1;
template<class A, class B> inline constexpr int live_per_value<std::pair<A, B>> = live_per_value<A> + live_per_value<B>;
template<class... Ts> inline constexpr int live_per_value<std::tuple<Ts...>> = (0 + ... + live_per_value<Ts>);
template<class T, std::size_t N> inline constexpr int live_per_value<std::array<T, N>> = int(N) * live_per_value<T>;
template<class T> inline constexpr int live_per_value<const T> = live_per_value<T>;
// counted only when the value itself may be empty: handled by live_of
template<class T> struct live_of { static int get(u64) { return live_per_value<T>; } };
template<class T> struct live_of<const T> : live_of<T> {};
template<class U> struct live_of<opt::option<U>> { static int get(u64 s) { return Ty<opt::option<U>>::none(s) ? 0 : live_of<U>::get(s); } };
template<class A, class B> struct live_of<std::pair<A, B>> { static int get(u64 s) { return live_of<A>::get(s) + live_of<B>::get(mix(s)); } };

enum class M { empty, value, moved };
struct Slot { M m = M::empty; u64 s = 0; };

// T may be const-qualified
template<class T, int Slots = 3>
struct Machine {
    using W = std::remove_const_t<T>;
    using Opt = opt::option<T>;
    using Y = Ty<W>;
    static constexpr bool copyable = std::is_copy_constructible_v<W>;
    static constexpr bool movable = std::is_move_constructible_v<W>;
    static constexpr bool copy_assignable = copyable && std::is_copy_assignable_v<T>;
    static constexpr bool move_assignable = movable && std::is_move_assignable_v<T>;
    static constexpr bool swappable = movable && std::is_swappable_v<T>;
    static constexpr bool trivial_move = std::is_trivially_move_constructible_v<W>;
    static constexpr bool throwing = !std::is_nothrow_move_constructible_v<W>;

    Case& c;
    Box<Opt>* box[Slots];
    Slot m[Slots];
    alignas(Box<Opt>) unsigned char mem[Slots][sizeof(Box<Opt>)];
    int changes = 0;

    explicit Machine(Case& cc) : c(cc) {
        static const unsigned char fills[] = {0, 0xff, 0x01, 0xa5};
        for (int i = 0; i < Slots; ++i) box[i] = ::new (mem[i]) Box<Opt>(fills[c.pick(4)]);
    }
    ~Machine() { for (int i = 0; i < Slots; ++i) box[i]->~Box<Opt>(); }
    Opt& o(int i) { return **box[i]; }

    u64 spec() { return c.interesting(); }
    void set(int i, u64 s) { m[i].m = M::value; m[i].s = s; ++changes; }
    void none(int i) { if (m[i].m != M::empty) ++changes; m[i] = Slot{}; }
    // the state of a contained value after it was moved from
    Slot moved_from(const Slot& x) { Slot r = x; if (r.m == M::value && !trivial_move) r.m = M::moved; return r; }

    void check(const char* what) {
        int live = 0; bool countable = true;
        for (int i = 0; i < Slots; ++i) {
            const Opt& x = o(i);
            pbt::opaque(x);
            bool want = m[i].m != M::empty;
            REQUIRE_MSG(x.has_value() == want, "option<%s>: after %s: option %d has_value()=%d, the model says %d", Y::name(), what, i, int(x.has_value()), int(want));
            REQUIRE_MSG(static_cast<bool>(x) == want, "option<%s>: after %s: operator bool of option %d disagrees", Y::name(), what, i);
            REQUIRE_MSG((x == opt::none) == !want && (x != opt::none) == want, "option<%s>: after %s: comparison of option %d with none disagrees", Y::name(), what, i);
            REQUIRE_MSG((x.ptr_or_null() != nullptr) == want, "option<%s>: after %s: ptr_or_null() of option %d disagrees", Y::name(), what, i);
            if (want) {
                REQUIRE_MSG(x.ptr_or_null() == std::addressof(x.get()), "option<%s>: ptr_or_null() is not the address of the value", Y::name());
                REQUIRE_MSG(reinterpret_cast<const char*>(x.ptr_or_null()) >= reinterpret_cast<const char*>(&x) && reinterpret_cast<const char*>(x.ptr_or_null() + 1) <= reinterpret_cast<const char*>(&x + 1), "option<%s>: the value is not inside of the option", Y::name());
                if (m[i].m == M::value) {
                    REQUIRE_MSG(Y::same(x.get(), m[i].s), "option<%s>: after %s: option %d holds a wrong value (expected spec %llu)", Y::name(), what, i, (unsigned long long)m[i].s);
                    REQUIRE_MSG(Y::same(*x, m[i].s) && std::addressof(*x) == std::addressof(x.get()) && std::addressof(x.value()) == std::addressof(x.get()) && std::addressof(x.get_unchecked()) == std::addressof(x.get()) && x.operator->() == std::addressof(x.get()), "option<%s>: the accessors disagree", Y::name());
                    live += live_of<T>::get(m[i].s);
                } else countable = false;
            }
        }
        if (countable && live_per_value<T> > 0) REQUIRE_MSG(reg::live() == live, "option<%s>: after %s: %d contained objects are alive, expected %d", Y::name(), what, reg::live(), live);
    }

    void rebuild_empty(int i) { box[i] = ::new (mem[i]) Box<Opt>(0xff); m[i] = Slot{}; }

    // one operation; returns its name
    const char* step() {
        int i = int(c.pick(Slots)), j = int(c.pick(Slots));
        unsigned char fill = (unsigned char)(c.pick(3) * 0x5a + (c.coin() ? 1 : 0));
        u64 s = spec();
        int op = int(c.pick(30));
        auto engaged_src = m[j].m;
        switch (op) {
        case 0: return "default construction", c.log("o%d: new option{}", i), destroy(i), make(i, fill), none(i), "default construction";
        case 1: c.log("o%d: new option{none}", i); destroy(i); make(i, fill, opt::none); none(i); return "construction from none";
        case 2: c.log("o%d: new option{value %llu}", i, (unsigned long long)s); if constexpr (movable) { W v = Y::make(s); destroy(i); make(i, fill, static_cast<W&&>(v)); set(i, s); } return "construction from a value";
        case 3: c.log("o%d: new option{const value& %llu}", i, (unsigned long long)s); if constexpr (copyable) { const W v = Y::make(s); destroy(i); make(i, fill, v); set(i, s); } return "construction from an lvalue";
        case 4: c.log("o%d: new option(in_place, move %llu)", i, (unsigned long long)s); if constexpr (movable) { W v = Y::make(s); destroy(i); make(i, fill, std::in_place, static_cast<W&&>(v)); set(i, s); } return "in-place construction";
        case 5: c.log("o%d: new copy of o%d", i, j); if constexpr (copyable) { if (i != j) { Slot n = m[j]; destroy(i); make(i, fill, static_cast<const Opt&>(o(j))); m[i] = n; ++changes; } } return "copy construction";
        case 6: c.log("o%d: new, moved from o%d", i, j); if constexpr (movable) { if (i != j) { Slot n = m[j]; destroy(i); make(i, fill, static_cast<Opt&&>(o(j))); m[i] = n; m[j] = moved_from(n); ++changes; } } return "move construction";
        case 7: case 8: c.log("o%d = o%d", i, j); if constexpr (copy_assignable) { Slot n = m[j]; Opt& r = (o(i) = static_cast<const Opt&>(o(j))); REQUIRE(&r == &o(i)); m[i] = n; ++changes; } return "copy assignment";
        case 9: case 10: c.log("o%d = move(o%d)", i, j); if constexpr (move_assignable) { Slot n = m[j]; Opt& r = (o(i) = static_cast<Opt&&>(o(j))); REQUIRE(&r == &o(i)); if (i != j) { m[i] = n; m[j] = moved_from(n); } else m[i] = moved_from(n); ++changes; } return "move assignment";
        case 11: c.log("o%d = value %llu", i, (unsigned long long)s); if constexpr (move_assignable) { Opt& r = (o(i) = Y::make(s)); REQUIRE(&r == &o(i)); set(i, s); } return "assignment of a value";
        case 12: c.log("o%d = const value& %llu", i, (unsigned long long)s); if constexpr (copy_assignable) { const W v = Y::make(s); o(i) = v; REQUIRE(Y::same(v, s)); set(i, s); } return "assignment of an lvalue";
        case 13: c.log("o%d = none", i); { Opt& r = (o(i) = opt::none); REQUIRE(&r == &o(i)); none(i); } return "assignment of none";
        case 14: c.log("o%d.reset()", i); o(i).reset(); none(i); return "reset";
        case 15: case 16: c.log("o%d.emplace(%llu)", i, (unsigned long long)s); if constexpr (movable) { W v = Y::make(s); auto& r = o(i).emplace(static_cast<W&&>(v)); REQUIRE_MSG(std::addressof(r) == std::addressof(o(i).get()), "emplace returned another object"); set(i, s); } return "emplace";
        case 17: c.log("o%d.try_emplace(%llu)", i, (unsigned long long)s); if constexpr (movable) { W v = Y::make(s); bool was = m[i].m != M::empty; auto& r = o(i).try_emplace(static_cast<W&&>(v)); REQUIRE_MSG(std::addressof(r) == std::addressof(o(i).get()), "try_emplace returned another object"); if (!was) set(i, s); else REQUIRE_MSG(Y::same(v, s), "try_emplace on an engaged option consumed its argument"); } return "try_emplace";
        case 18: c.log("o%d.take()", i); if constexpr (movable) { Slot n = m[i]; Opt t = o(i).take(); none(i); check_other(t, n, "the result of take()"); check("take, while its result is alive", t, n); } return "take";
        case 19: { bool yes = c.coin(); c.log("o%d.take_if(%d)", i, int(yes)); if constexpr (movable) { Slot n = m[i]; int calls = 0; Opt t = o(i).take_if([&](auto& x) { ++calls; if (n.m == M::value) REQUIRE(Y::same(x, n.s)); return yes; }); REQUIRE_MSG(calls == (n.m != M::empty), "take_if called its predicate %d times", calls); if (n.m != M::empty && yes) { none(i); check_other(t, n, "the result of take_if()"); } else check_other(t, Slot{}, "the result of take_if()"); } return "take_if"; }
        case 20: c.log("o%d.swap(o%d)", i, j); if constexpr (swappable) { o(i).swap(o(j)); swap_model(i, j); } return "member swap";
        case 21: c.log("swap(o%d, o%d)", i, j); if constexpr (swappable) { if (c.coin()) opt::swap(o(i), o(j)); else { using std::swap; swap(o(i), o(j)); } swap_model(i, j); } return "swap";
        case 22: c.log("*o%d = value %llu", i, (unsigned long long)s); if constexpr (std::is_move_assignable_v<T>) if (m[i].m != M::empty) { switch (c.pick(5)) { case 0: o(i).get() = Y::make(s); break; case 1: *o(i) = Y::make(s); break; case 2: *o(i).operator->() = Y::make(s); break; case 3: o(i).value() = Y::make(s); break; default: for (auto& x : o(i)) x = Y::make(s); } set(i, s); } return "modification in place";
        case 23: c.log("o%d = option{value %llu}", i, (unsigned long long)s); if constexpr (move_assignable) { o(i) = Opt{Y::make(s)}; set(i, s); } return "assignment of a temporary option";
        case 24: c.log("o%d = {}", i); if constexpr (move_assignable && std::is_scalar_v<T> == false) { o(i) = Opt{}; none(i); } return "assignment of an empty temporary";
        case 25: c.log("take the value out of o%d by move, into o%d by emplace", j, i); if constexpr (movable) if (i != j && m[j].m != M::empty) { Slot n = m[j]; o(i).emplace(static_cast<W&&>(const_cast<W&>(o(j).get()))); m[i] = n; m[j] = moved_from(n); ++changes; } return "emplace from another option's value";
        case 26: c.log("relocate all options through a growing vector"); if constexpr (movable && std::is_move_constructible_v<Opt>) { std::vector<Opt> v; Slot n[Slots]; for (int k = 0; k < Slots; ++k) { n[k] = m[k]; v.push_back(static_cast<Opt&&>(o(k))); m[k] = moved_from(m[k]); } if constexpr (move_assignable) { v.insert(v.begin(), Opt{}); REQUIRE(!v.front().has_value()); v.erase(v.begin()); } for (int k = 0; k < Slots; ++k) check_other(v[std::size_t(k)], n[k], "an option inside of a vector"); for (int k = 0; k < Slots; ++k) { destroy(k); make(k, fill, static_cast<Opt&&>(v[std::size_t(k)])); m[k] = n[k]; } ++changes; } return "relocation through a vector";
        case 27: c.log("o%d = take(o%d)", i, j); if constexpr (move_assignable) { Slot n = m[j]; o(i) = o(j).take(); m[j] = Slot{}; m[i] = n; ++changes; } return "assignment of a taken value";
        case 28: c.log("pass o%d by value and return", j); if constexpr (copyable && move_assignable) { Slot n = m[j]; auto f = [](Opt x) { return x; }; Opt r = f(o(j)); check_other(r, n, "a returned copy"); } return "copy through a function";
        default: c.log("read only operations on o%d", j); (void)engaged_src; read_only(j, s); return "read-only operations";
        }
    }
    void read_only(int j, u64 s) {
        const Opt& x = o(j); bool e = m[j].m != M::empty; int calls = 0;
        REQUIRE(x.has_value_and([&](const W& v) { ++calls; if (m[j].m == M::value) REQUIRE(Y::same(v, m[j].s)); return true; }) == e); REQUIRE(calls == e);
        x.inspect([&](const W& v) { ++calls; if (m[j].m == M::value) REQUIRE(Y::same(v, m[j].s)); }); REQUIRE(calls == 2 * int(e));
        REQUIRE(x.map([](const W&) { return 7; }).has_value() == e);
        REQUIRE(x.map_or(1, [](const W&) { return 2; }) == (e ? 2 : 1));
        int n = 0; for (const auto& v : x) { ++n; REQUIRE(std::addressof(v) == std::addressof(x.get())); } REQUIRE(n == e);
        bool threw = false; try { (void)x.value(); } catch (const opt::bad_access&) { threw = true; } REQUIRE_MSG(threw == !e, "value() threw=%d on an option with has_value()=%d", int(threw), int(e));
        if constexpr (copyable && move_assignable) { W r = x.value_or(Y::make(s)); if (m[j].m != M::moved) REQUIRE_MSG(Y::same(r, e ? m[j].s : s), "value_or returned a wrong value"); }
    }
    void swap_model(int i, int j) {
        if (i == j) { if (m[i].m == M::value && throwing) {} ++changes; return; }
        std::swap(m[i], m[j]); ++changes;
    }
    void check_other(const Opt& t, const Slot& n, const char* what) {
        REQUIRE_MSG(t.has_value() == (n.m != M::empty), "option<%s>: %s has_value()=%d, expected %d", Y::name(), what, int(t.has_value()), int(n.m != M::empty));
        if (n.m == M::value) REQUIRE_MSG(Y::same(t.get(), n.s), "option<%s>: %s holds a wrong value", Y::name(), what);
    }
    void check(const char*, const Opt&, const Slot& n) {
        for (int i = 0; i < Slots; ++i) REQUIRE(o(i).has_value() == (m[i].m != M::empty));
        (void)n;
    }
    void destroy(int i) { box[i]->~Box<Opt>(); ::new (mem[i]) Box<Opt>(0); m[i] = Slot{}; dtor_pending = i; }
    int dtor_pending = -1;
    template<class... A> void make(int i, unsigned char fill, A&&... a) {
        reinterpret_cast<Box<Opt>*>(mem[i])->~Box<Opt>();
        try { box[i] = ::new (mem[i]) Box<Opt>(fill, static_cast<A&&>(a)...); }
        catch (...) { box[i] = ::new (mem[i]) Box<Opt>(0xff); m[i] = Slot{}; throw; }
    }
};

template<class T>
void state_machine(Case& c) {
    reg::reset();
    {
        Machine<T> mc(c);
        mc.check("construction");
        int n = 2 + int(c.pick(24));
        for (int k = 0; k < n; ++k) { const char* w = mc.step(); mc.check(w); }
        c.nontrivial(mc.changes >= 3);
    }
    REQUIRE_MSG(reg::live() == 0, "option<%s>: %d contained objects outlive their options", Ty<std::remove_const_t<T>>::name(), reg::live());
}
// as above, with exceptions injected into the contained type
template<class T>
void throwing_machine(Case& c) {
    reg::reset();
    int thrown = 0;
    {
        Machine<T> mc(c);
        int n = 2 + int(c.pick(20));
        for (int k = 0; k < n; ++k) {
            Slot before[3]; for (int i = 0; i < 3; ++i) before[i] = mc.m[i];
            bool arm = c.coin();
            if (arm) reg::st().throw_in = c.pick(4);
            bool fired = false;
            const char* w = "an operation that threw";
            try { w = mc.step(); } catch (const reg::boom&) { fired = true; ++thrown; }
            reg::st().throw_in = -1;
            if (fired) {
                c.log("   ... threw");
                // every option is still in a well-defined state: resynchronise the model from what can be observed
                for (int i = 0; i < 3; ++i) {
                    const auto& x = mc.o(i);
                    pbt::opaque(x);
                    if (x.has_value()) mc.m[i].m = M::moved; else mc.m[i] = Slot{};
                }
                long live = reg::live(), want = 0;
                for (int i = 0; i < 3; ++i) if (mc.o(i).has_value()) want += live_per_value<T>;
                if (live_per_value<T> > 0 && !opt::is_option_v<std::remove_const_t<T>>) REQUIRE_MSG(live == want, "option<%s>: after an exception %ld contained objects are alive, the engaged options account for %ld", Ty<std::remove_const_t<T>>::name(), live, want);
            }
            mc.check(w);
        }
        c.nontrivial(thrown > 0);
    }
    REQUIRE_MSG(reg::live() == 0, "option<%s>: %d contained objects outlive their options", Ty<std::remove_const_t<T>>::name(), reg::live());
}
#define SM(...) REG("machine " #__VA_ARGS__, (&state_machine<__VA_ARGS__>));
#define PBT_SM_LINE(n, ...) static ::pbt::registrar PBT_CAT(pbt_reg_sm_, n)("machine " #__VA_ARGS__, &state_machine<__VA_ARGS__>);
