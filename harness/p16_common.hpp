// Accessors of empty options: the assertion macro is replaced by a recorder which jumps back to the test.
#pragma once
#include <csetjmp>
namespace rec {
inline std::jmp_buf jb; inline volatile bool armed = false; inline const char* volatile message = nullptr;
[[gnu::noinline]] void hit(const char* m);
}
#define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : ::rec::hit(message))
#include "p09_common.hpp"
namespace rec {
[[gnu::noinline]] inline void hit(const char* m) { message = m; if (armed) { armed = false; std::longjmp(jb, 1); } FAIL("the assertion was raised on a correct call: %s", m); }
// runs f; true when the assertion was raised
template<class F> [[gnu::noinline]] bool fires(F&& f) { armed = true; message = nullptr; if (setjmp(jb) == 0) { f(); armed = false; return false; } return true; }
}
template<class P> [[gnu::noinline]] void use(P* p) { pbt::opaque(p); }
template<class T, int Cat> void access_cat(Held<T>& h, int op) {
    auto& o = h.o; bool raised = false; const void* got = nullptr; const char* name = "";
    using O = opt::option<T>;
    using E = elem_t<T, Cat>;
    pbt::opaque(o);
    switch (op) {
    case 0: name = "get()"; static_assert(noexcept(as<Cat>(o).get())); raised = rec::fires([&] { auto&& r = as<Cat>(o).get(); got = std::addressof(r); pbt::opaque(got); }); break;
    case 1: name = "operator*"; static_assert(noexcept(*as<Cat>(o))); raised = rec::fires([&] { auto&& r = *as<Cat>(o); got = std::addressof(r); pbt::opaque(got); }); break;
    case 2: name = "operator->"; raised = rec::fires([&] { auto* r = as<Cat>(o).operator->(); got = r; pbt::opaque(got); }); break;
    case 3: case 4: { name = op == 3 ? "value()" : "value_or_throw()"; bool thrown = false;
        static_assert(std::is_same_v<decltype(as<Cat>(o).value()), decltype(as<Cat>(o).value_or_throw())> && std::is_same_v<std::remove_reference_t<decltype(as<Cat>(o).value())>, std::remove_reference_t<E>>);
        raised = rec::fires([&] { try { if (op == 3) { auto&& r = as<Cat>(o).value(); got = std::addressof(r); } else { auto&& r = as<Cat>(o).value_or_throw(); got = std::addressof(r); } } catch (const opt::bad_access& e) { thrown = true; const std::exception& b = e; REQUIRE(b.what() && *b.what()); } });
        REQUIRE_MSG(!raised, "%s of an option<%s> that is %d raised the assertion", name, Ty<bare<T>>::name(), int(h.engaged));
        REQUIRE_MSG(thrown == !h.engaged, "%s of an option<%s> that is %d %s", name, Ty<bare<T>>::name(), int(h.engaged), thrown ? "threw" : "did not throw");
        if (h.engaged) REQUIRE_MSG(got == h.address(), "%s returned another object than the contained one", name); h.unchanged(name); return; }
    default: { name = "get_unchecked()"; if (std::is_reference_v<T> && !h.engaged) return; raised = rec::fires([&] { auto&& r = as<Cat>(o).get_unchecked(); got = std::addressof(r); pbt::opaque(got); });
        REQUIRE_MSG(!raised, "get_unchecked() raised the assertion"); if (!std::is_reference_v<T>) REQUIRE_MSG((const char*)got >= (const char*)&o && (const char*)got < (const char*)(&o + 1), "get_unchecked() refers outside of the option"); if (h.engaged) REQUIRE(got == h.address()); h.unchanged(name); return; } }
    REQUIRE_MSG(raised == !h.engaged, "%s %s of an option<%s> that is %d %s the assertion", name, cat_names[Cat], Ty<bare<T>>::name(), int(h.engaged), raised ? "raised" : "did not raise");
    if (h.engaged) REQUIRE_MSG(got == h.address(), "%s returned another object than the contained one", name);
    h.unchanged(name); (void)sizeof(O);
}
template<class T> void access(Case& c) {
    reg::reset();
    {
        u64 s = c.interesting(); Held<T> h(c.coin(), s); int op = int(c.pick(6)), cat = int(c.pick(4));
        if (!h.engaged) switch (c.pick(4)) { case 0: break; case 1: { if constexpr (std::is_reference_v<T>) h.o = h.target; else h.o.emplace(Ty<bare<T>>::make(s)); h.o.reset(); break; } case 2: { if constexpr (std::is_reference_v<T>) h.o = h.target; else h.o.emplace(Ty<bare<T>>::make(s)); auto t = h.o.take(); (void)t; break; } default: { if constexpr (!std::is_const_v<T>) h.o = opt::none; else h.o.reset(); } }
        c.log("access %d %s of option<%s>, full %d", op, cat_names[cat], Ty<bare<T>>::name(), int(h.engaged));
        switch (cat) { case 0: access_cat<T, 0>(h, op); break; case 1: access_cat<T, 1>(h, op); break; case 2: access_cat<T, 2>(h, op); break; default: access_cat<T, 3>(h, op); }
        c.nontrivial();
    }
    REQUIRE(reg::live() == 0);
}
// a value whose representation is the option's empty state
template<class T> T reserved() { static_assert(std::is_trivially_destructible_v<T>); alignas(T) unsigned char b[sizeof(T)] = {}; opt::option_traits<T>::set_level(reinterpret_cast<T*>(b), 0); return T(static_cast<T&&>(*std::launder(reinterpret_cast<T*>(b)))); }
template<class T> inline constexpr bool converts = std::is_scalar_v<T> || !std::is_aggregate_v<T>;
template<class T> struct Src { T v; explicit Src(const T& x) : v(x) {} operator T() const { return v; } };
template<class T> void creation(Case& c) {
    using O = opt::option<T>; static_assert(std::is_trivially_destructible_v<T> && sizeof(O) == sizeof(T));
    bool bad = c.coin(), full = c.coin(); u64 s = c.interesting(), t = c.interesting(); int op = int(c.pick(16));
    static const unsigned char fill[] = {0, 0xff, 0x5a}; alignas(O) unsigned char buf[sizeof(O)]; std::memset(buf, fill[c.pick(3)], sizeof buf); pbt::opaque(buf);
    T v = bad ? reserved<T>() : Ty<T>::make(s); pbt::opaque(v);
    O* o = nullptr; const char* name = ""; bool raised = false;
    auto prepare = [&] { o = ::new (static_cast<void*>(buf)) O; if (full) o->emplace(Ty<T>::make(t)); pbt::opaque(buf); };
    switch (op) {
    case 0: name = "construction from a value"; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(v); }); break;
    case 1: name = "construction from an rvalue"; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O{static_cast<T&&>(v)}; }); break;
    case 2: name = "in-place construction"; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(std::in_place, v); }); break;
    case 3: name = "emplace"; prepare(); raised = rec::fires([&] { o->emplace(v); }); break;
    case 4: name = "try_emplace"; full = false; prepare(); raised = rec::fires([&] { o->try_emplace(v); }); break;
    case 5: name = "assignment"; prepare(); raised = rec::fires([&] { *o = v; }); break;
    case 6: name = "move assignment"; prepare(); raised = rec::fires([&] { *o = static_cast<T&&>(v); }); break;
    case 7: { if constexpr (converts<T>) { name = "conversion from another option"; opt::option<Src<T>> src; src.emplace(Src<T>(v)); raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(src); }); break; } return; }
    case 8: { if constexpr (converts<T>) { name = "conversion from another option rvalue"; opt::option<Src<T>> src; src.emplace(Src<T>(v)); raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(static_cast<opt::option<Src<T>>&&>(src)); }); break; } return; }
    case 9: { if constexpr (converts<T>) { name = "assignment from another option"; opt::option<Src<T>> src; src.emplace(Src<T>(v)); prepare(); raised = rec::fires([&] { *o = src; }); break; } return; }
    case 10: { if constexpr (converts<T>) { name = "assignment from another option rvalue"; opt::option<Src<T>> src; src.emplace(Src<T>(v)); prepare(); raised = rec::fires([&] { *o = static_cast<opt::option<Src<T>>&&>(src); }); break; } return; }
    case 11: { name = "map"; opt::option<int> one{1}; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(one.map([&](int) { return v; })); }); break; }
    case 12: { name = "zip_with"; opt::option<int> one{1}; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(opt::zip_with([&](int) { return v; }, one)); }); break; }
    case 13: { if constexpr (converts<T>) { name = "option_cast"; opt::option<Src<T>> src; src.emplace(Src<T>(v)); raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(opt::option_cast<T>(src)); }); break; } return; }
    case 14: name = "make_option"; raised = rec::fires([&] { o = ::new (static_cast<void*>(buf)) O(opt::make_option(v)); }); break;
    default: name = "|="; full = false; prepare(); raised = rec::fires([&] { *o |= v; }); }
    c.log("%s of %s with %s value over an option that is %d", name, Ty<T>::name(), bad ? "the reserved" : "a legitimate", int(full));
    REQUIRE_MSG(raised == bad, "%s: %s with %s value %s the assertion", Ty<T>::name(), name, bad ? "the reserved" : "a legitimate", raised ? "raised" : "did not raise");
    if (!bad) { pbt::opaque(*o); REQUIRE(o && o->has_value() && Ty<T>::same(o->get(), s)); o->~O(); }
    c.nontrivial();
}
// histories of correct calls never raise it
template<class T> void quiet(Case& c) {
    reg::reset();
    {
        using O = opt::option<T>; using V = bare<T>; O a, b; u64 s[2] = {c.interesting(), c.interesting()}; V t0 = Ty<V>::make(s[0]), t1 = Ty<V>::make(s[1]); V* t[2] = {&t0, &t1}; int n = 2 + int(c.pick(14)); (void)t;
        auto mk = [&](int i) -> decltype(auto) { if constexpr (std::is_reference_v<T>) return static_cast<V&>(*t[i]); else return Ty<V>::make(s[i]); };
        for (int k = 0; k < n; ++k) {
            int i = int(c.pick(2)); O& x = c.coin() ? a : b; O& y = c.coin() ? a : b;
            switch (c.pick(16)) {
            case 0: x.emplace(mk(i)); break; case 1: x.reset(); break; case 2: { if constexpr (!std::is_const_v<T>) x.swap(y); break; } case 3: { O z = x.take(); if constexpr (std::is_move_assignable_v<O>) y = static_cast<O&&>(z); break; } case 4: (void)x.try_emplace(mk(i)); break; case 5: if (x) { auto&& r = x.get(); (void)r; auto&& q = *x; (void)q; } break;
            case 6: for (auto&& r : x) (void)r; break; case 7: (void)x.has_value_and([](auto&&) { return true; }); break; case 8: { auto m = x.map([](auto&&) { return 3; }); REQUIRE(m.has_value() == x.has_value()); break; } case 9: (void)x.take_if([&](auto&&) { return i == 0; }); break; case 10: (void)x.ptr_or_null(); break;
            case 11: x.inspect([](auto&&) {}); break; case 12: { try { (void)x.value(); } catch (const opt::bad_access&) {} break; } case 13: { O z(static_cast<O&&>(x)); (void)z; if (x) { if constexpr (!std::is_reference_v<T>) x.reset(); } break; } case 14: { auto it = x.begin(), e = x.end(); REQUIRE(e - it == int(x.has_value()) && it + (e - it) == e && (it < e) == x.has_value()); break; }
            default: { bool r = x.map_or(false, [](auto&&) { return true; }); REQUIRE(r == x.has_value()); (void)x.map_or_else([] { return 1; }, [](auto&&) { return 2; }); } }
        }
        c.nontrivial(n > 3);
    }
    REQUIRE(reg::live() == 0);
}
#define AC(...) REG("access " #__VA_ARGS__, (&access<__VA_ARGS__>)); REG("quiet " #__VA_ARGS__, (&quiet<__VA_ARGS__>));
#define CR(...) REG("creation " #__VA_ARGS__, (&creation<__VA_ARGS__>));
