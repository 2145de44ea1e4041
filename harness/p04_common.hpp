// Storing values bit for bit in options that keep no separate flag.
#pragma once
#include "types.hpp"
#include <memory_resource>

static const unsigned char fills04[] = {0x00, 0xff, 0x01, 0x80, 0x5d, 0xa5, 0x7f, 0xf6};
// specs aimed at the neighbourhood of reserved representations
inline u64 spec04(Case& c) {
    switch (c.pick(8)) {
    case 0: return nan64 - 300 + c.pick(1000);
    case 1: return u64(nan32) - 300 + c.pick(1000);
    case 2: return (c.u64() << 32) | (u64(nan32) - 300 + c.pick(1000));
    case 3: return (nan64 & ~0xffffffffull) | c.u32();
    case 4: return u64(0) - c.pick(1100);
    case 5: return c.u64();
    default: return c.interesting();
    }
}
template<class T> void stored(Case& c) {
    using V = std::remove_const_t<T>; using O = opt::option<T>; using Y = Ty<V>;
    reg::reset();
    u64 s = spec04(c), r = spec04(c), q = spec04(c);
    unsigned char fill = fills04[c.pick(8)]; int put = int(c.pick(9)), act = int(c.pick(12));
    c.log("%s fill %02x put %d then %d, specs %llx %llx", Y::name(), fill, put, act, (unsigned long long)s, (unsigned long long)r);
    auto check = [&](const O& o, const char* w, u64 sp) { pbt::opaque(o); REQUIRE_MSG(o.has_value() && bool(o) && o != opt::none, "%s: a legitimate value (spec %llx) is reported as empty after %s", Y::name(), (unsigned long long)sp, w); REQUIRE_MSG(Y::same(*o, sp) && Y::same(o.get_unchecked(), sp), "%s: another value comes back after %s (spec %llx)", Y::name(), w, (unsigned long long)sp); };
    auto engaged = [&](const O& o, const char* w) { pbt::opaque(o); REQUIRE_MSG(o.has_value(), "%s: the option appears empty after %s", Y::name(), w); };
    auto empty = [&](const O& o, const char* w) { pbt::opaque(o); REQUIRE_MSG(!o.has_value() && !bool(o) && o == opt::none && o.ptr_or_null() == nullptr, "%s: an empty option is reported as full after %s", Y::name(), w); };
    {
        Box<O> d(fill); empty(*d, "default construction"); Box<O> n(fill, opt::none); empty(*n, "construction from none");
        if (put == 6) { d->emplace(Y::make(q)); pbt::opaque(*d); d->reset(); empty(*d, "reset"); }
        switch (put) { // ways of putting the value in
        case 0: case 6: d->emplace(Y::make(s)); break;
        case 1: if constexpr (std::is_move_assignable_v<T>) { *d = Y::make(s); break; } d->emplace(Y::make(s)); break;
        case 2: { Box<O> t(fill, Y::make(s)); check(*t, "construction from a value", s); d->emplace(Y::make(s)); break; }
        case 3: { Box<O> t(fill, std::in_place, Y::make(s)); check(*t, "in-place construction", s); d->emplace(Y::make(s)); break; }
        case 4: d->try_emplace(Y::make(s)); break;
        case 5: if constexpr (std::is_move_assignable_v<T>) { Box<O> t(fill, Y::make(s)); *d = static_cast<O&&>(*t); break; } d->emplace(Y::make(s)); break;
        case 7: if constexpr (std::is_copy_constructible_v<V> && std::is_copy_assignable_v<T>) { O t(Y::make(s)); *d = t; check(t, "being copied", s); break; } d->emplace(Y::make(s)); break;
        default: d->emplace(Y::make(q)); check(*d, "emplace", q); d->emplace(Y::make(s)); break;
        }
        check(*d, "the value was put in", s);
        switch (act) { // modification in place and transport
        case 0: if constexpr (std::is_move_assignable_v<T>) { **d = Y::make(r); check(*d, "assignment through operator*", r); } break;
        case 1: if constexpr (std::is_move_assignable_v<T>) { d->get() = Y::make(r); check(*d, "assignment through get()", r); *d = Y::make(q); check(*d, "assignment", q); } break;
        case 2: if constexpr (!std::is_const_v<T> && std::is_move_constructible_v<V>) { V x(static_cast<V&&>(**d)); engaged(*d, "the value was moved out"); if constexpr (std::is_move_assignable_v<T>) { **d = static_cast<V&&>(x); check(*d, "the value was moved back", s); } } break;
        case 3: if constexpr (std::is_swappable_v<T>) { V x = Y::make(r); using std::swap; swap(**d, x); check(*d, "swap of the contained value", r); } break;
        case 4: if constexpr (std::is_move_constructible_v<V> && (!std::is_const_v<T> || std::is_copy_constructible_v<V>)) { std::vector<O> v; v.reserve(1); v.push_back(static_cast<O&&>(*d)); engaged(*d, "being moved from"); v.reserve(64); check(v[0], "relocation in a vector", s); v.emplace_back(); empty(v[1], "emplace_back()"); v.resize(40); for (int i = 2; i < 40; ++i) empty(v[i], "vector growth"); check(v[0], "vector growth", s); } break;
        case 5: if constexpr (std::is_copy_constructible_v<V>) { O t(*d); check(t, "copy", s); check(*d, "being copied", s); } break;
        case 6: if constexpr (std::is_move_constructible_v<V>) { O t = d->take(); empty(*d, "take"); check(t, "take", s); d->emplace(Y::make(r)); check(*d, "refill", r); } break;
        case 7: { d->reset(); empty(*d, "reset"); d->emplace(Y::make(r)); check(*d, "refill", r); *d = opt::none; empty(*d, "assignment of none"); } break;
        case 8: if constexpr (std::is_move_assignable_v<T>) { for (auto& x : *d) x = Y::make(r); check(*d, "assignment through an iterator", r); } break;
        case 9: if constexpr (std::is_move_assignable_v<T>) { *d->ptr_or_null() = Y::make(r); check(*d, "assignment through ptr_or_null()", r); d->inspect([&](auto& x) { x = Y::make(q); }); check(*d, "assignment in inspect", q); } break;
        case 10: if constexpr (std::is_swappable_v<T> && std::is_move_constructible_v<V> && std::is_move_assignable_v<T>) { Box<O> e(fill); swap(*d, *e); empty(*d, "swap with an empty option"); check(*e, "swap with an empty option", s); d->emplace(Y::make(r)); d->swap(*e); check(*d, "swap", s); check(*e, "swap", r); } break;
        default: if constexpr (std::is_copy_assignable_v<T>) { const V x = Y::make(r); *d = x; check(*d, "copy assignment of a value", r); **d = **d; check(*d, "self assignment of the contained value", r); } break;
        }
    }
    c.nontrivial();
}
#define ST(...) REG("stored " #__VA_ARGS__, (&stored<__VA_ARGS__>));
template<> struct Ty<std::wstring_view> { using T = std::wstring_view; static T make(u64 s) { static const wchar_t t[] = L"0123456789abcdef"; if (s % 5 == 0) return T(); return T(t + (s >> 3) % 8, (s >> 7) % 9); } static bool same(const T& v, u64 s) { T m = make(s); return v.data() == m.data() && v.size() == m.size(); } static const char* name() { return "wstring_view"; } };
template<> struct Ty<std::vector<std::string>> { using T = std::vector<std::string>; static T make(u64 s) { T r; for (u64 i = 0; i < s % 5; ++i) r.push_back(str_of(mix(s + i))); return r; } static bool same(const T& v, u64 s) { if (v.size() != s % 5) return false; for (u64 i = 0; i < v.size(); ++i) if (v[i] != str_of(mix(s + i))) return false; return true; } static const char* name() { return "vector<string>"; } };
template<> struct Ty<u64 Host::*> { using T = u64 Host::*; static T make(u64 s) { return s % 2 ? &Host::d : nullptr; } static bool same(const T& v, u64 s) { return v == make(s); } static const char* name() { return "u64 Host::*"; } };
template<> struct Ty<int (Host::*)(int) const> { using T = int (Host::*)(int) const; static T make(u64 s) { return s % 2 ? &Host::g : T(nullptr); } static bool same(const T& v, u64 s) { return v == make(s); } static const char* name() { return "int (Host::*)(int) const"; } };
