// What each operation does to the contained object, for generated classes with any combination of trivial and
// user-provided special members. The object carries three observable fields: 'v' (the value), 'kept' (set by
// constructors and copied by defaulted members only: tells construction, assignment and bitwise copy apart) and
// 'gone' (set in the source by user-provided moves). The model predicts all of them and the number of calls.
#pragma once
#include "types.hpp"
#include <tuple>
#include <utility>
#include <vector>
#include <variant>

namespace conduct {
struct Ev { int cc, mc, ca, ma, dt, vc, va, sw; bool operator==(const Ev& o) const { return std::memcmp(this, &o, sizeof o) == 0; } };
inline Ev ev;
constexpr int by_ctor = 1, by_copy = 2, by_move = 3;   // values of 'kept' set by the constructors
// modes: 1 defaulted, 2 noexcept user-provided, 3 user-provided, 4 not declared (moves only), 0 deleted
constexpr bool user(int m) { return m == 2 || m == 3; }
struct Obj { bool has = false; int v = 0, kept = 0, gone = 0; };

template<class T> struct Model {
    static constexpr bool copyable = T::CC != 0, movable = T::MC != 0 && (T::MC != 4 || copyable), cassign = copyable && T::CA != 0, massign = movable && T::MA != 0 && (T::MA != 4 || T::CA != 0);
    Ev want{};
    Obj copied(const Obj& s) { Obj r = s; if (s.has && user(T::CC)) { ++want.cc; r.kept = by_copy; r.gone = 0; } return r; }
    Obj moved(Obj& s) { if (!s.has || T::MC == 4) return copied(s); Obj r = s; if (user(T::MC)) { ++want.mc; r.kept = by_move; r.gone = 0; s.gone = 1; } return r; }
    void destroyed(Obj& o) { if (o.has && T::DT) ++want.dt; o = Obj{}; }
    void copy_assigned(Obj& d, const Obj& s) { if (user(T::CA)) { ++want.ca; d.v = s.v; d.gone = 0; } else d = s; }
    void move_assigned(Obj& d, Obj& s) { if (T::MA == 4) return copy_assigned(d, s); if (user(T::MA)) { ++want.ma; d.v = s.v; d.gone = 0; s.gone = 1; } else d = s; }
    void assign(Obj& d, const Obj& s) { if (!s.has) destroyed(d); else if (!d.has) d = copied(s); else copy_assigned(d, s); }
    void move_assign(Obj& d, Obj& s) { if (!s.has) destroyed(d); else if (!d.has) d = moved(s); else move_assigned(d, s); }
    Obj made(int v) { ++want.vc; Obj r; r.has = true; r.v = v; r.kept = by_ctor; return r; }
};
template<class T> void same(const opt::option<T>& o, const Obj& m, const char* what, const char* which) {
    pbt::opaque(o);
    REQUIRE_MSG(o.has_value() == m.has, "option<%s>: %s: %s is %s", T::label(), what, which, o.has_value() ? "full" : "empty");
    if (m.has) { const T& x = o.get_unchecked();
        REQUIRE_MSG(x.v == m.v, "option<%s>: %s: %s has the value %d, expected %d", T::label(), what, which, x.v, m.v);
        REQUIRE_MSG(x.gone == m.gone, "option<%s>: %s: %s was%s moved from", T::label(), what, which, x.gone ? "" : " not");
        REQUIRE_MSG(x.kept == m.kept, "option<%s>: %s: %s was not constructed or assigned as expected (mark %d, expected %d)", T::label(), what, which, x.kept, m.kept); }
}
template<class T> void same_value(const T& x, const Obj& m, const char* what, const char* which) { opt::option<T>* none = nullptr; (void)none;
    REQUIRE_MSG(x.v == m.v && x.gone == m.gone && x.kept == m.kept, "%s: %s: %s is {%d, mark %d, moved from %d}, expected {%d, mark %d, moved from %d}", T::label(), what, which, x.v, x.kept, x.gone, m.v, m.kept, m.gone); }
template<class T> void events(const char* what, const Ev& got, const Ev& want) {
    REQUIRE_MSG(got == want, "option<%s>: %s: copies %d (expected %d), moves %d (%d), copy assignments %d (%d), move assignments %d (%d), destructions %d (%d), constructions from int %d (%d), assignments from int %d (%d), swaps %d (%d)", T::label(), what,
        got.cc, want.cc, got.mc, want.mc, got.ca, want.ca, got.ma, want.ma, got.dt, want.dt, got.vc, want.vc, got.va, want.va, got.sw, want.sw);
}
// one generated state: an option with its model
template<class T> struct St {
    opt::option<T> o; Obj m; T* at = nullptr;
    St(Case& c, int mark) { if (c.pick(3) != 0) { int v = int(c.pick(1000)); o.emplace(v); o.get_unchecked().kept = mark; m.has = true; m.v = v; m.kept = mark; at = o.ptr_or_null(); } }
};
template<class T> T fresh(int v, int mark, Obj& m) { m.has = true; m.v = v; m.kept = mark; m.gone = 0; T x(v); x.kept = mark; return x; }

template<class T> void life(Case& c) {
    using O = opt::option<T>; using Md = Model<T>; Md md; const char* what = "";
    St<T> d(c, 55), s(c, 66); const int v = int(c.pick(1000)), op = int(c.pick(18)); Ev got{};
    c.log("option<%s> op %d destination %d source %d", T::label(), op, int(d.m.has), int(s.m.has));
#define RUN(...) do { ev = Ev{}; __VA_ARGS__; got = ev; } while (0)
    switch (op) {
    case 0: case 1: what = "copy assignment"; if constexpr (Md::cassign) { RUN(d.o = static_cast<const O&>(s.o)); md.assign(d.m, s.m); } break;
    case 2: case 3: what = "move assignment"; if constexpr (Md::massign) { RUN(d.o = static_cast<O&&>(s.o)); md.move_assign(d.m, s.m); } break;
    case 4: what = "assignment of an lvalue"; if constexpr (Md::cassign) { T x(v); x.kept = 77; Obj m; m.has = true; m.v = v; m.kept = 77; RUN(d.o = static_cast<const T&>(x)); md.assign(d.m, m); same_value(x, m, what, "the source"); } break;
    case 5: what = "assignment of an rvalue"; if constexpr (Md::massign) { T x(v); x.kept = 77; Obj m; m.has = true; m.v = v; m.kept = 77; RUN(d.o = static_cast<T&&>(x)); md.move_assign(d.m, m); same_value(x, m, what, "the source"); } break;
    case 6: what = "assignment of another type"; if constexpr (T::VA) { RUN(d.o = v); if (d.m.has) { ++md.want.va; d.m.v = v; } else d.m = md.made(v); } break;
    case 7: what = "copy assignment from an option of another type"; if constexpr (T::VA) { opt::option<int> i; if (s.m.has) i = v; RUN(d.o = static_cast<const opt::option<int>&>(i)); if (!s.m.has) md.destroyed(d.m); else if (d.m.has) { ++md.want.va; d.m.v = v; } else d.m = md.made(v); } break;
    case 8: what = "move assignment from an option of another type"; if constexpr (T::VA) { opt::option<int> i; if (s.m.has) i = v; RUN(d.o = static_cast<opt::option<int>&&>(i)); if (!s.m.has) md.destroyed(d.m); else if (d.m.has) { ++md.want.va; d.m.v = v; } else d.m = md.made(v); } break;
    case 9: what = "emplace"; RUN(d.o.emplace(v)); md.destroyed(d.m); d.m = md.made(v); break;
    case 10: what = "try_emplace"; RUN(d.o.try_emplace(v)); if (!d.m.has) d.m = md.made(v); break;
    case 11: what = "reset"; RUN(d.o.reset()); md.destroyed(d.m); break;
    case 12: what = "assignment of none"; RUN(d.o = opt::none); md.destroyed(d.m); break;
    case 13: what = "take"; if constexpr (Md::movable) { ev = Ev{}; O t = d.o.take(); got = ev; Obj r = md.moved(d.m); md.destroyed(d.m); same(t, r, what, "the result"); } break;
    case 14: what = "take_if"; if constexpr (Md::movable) { bool yes = c.coin(); ev = Ev{}; O t = d.o.take_if([&](T& x) { REQUIRE(std::addressof(x) == d.at); return yes; }); got = ev; Obj r; if (yes) { r = md.moved(d.m); md.destroyed(d.m); } same(t, r, what, "the result"); } break;
    case 15: what = "copy construction"; if constexpr (Md::copyable) { ev = Ev{}; O t(static_cast<const O&>(d.o)); got = ev; Obj r = md.copied(d.m); same(t, r, what, "the copy"); } break;
    case 16: what = "move construction"; if constexpr (Md::movable) { ev = Ev{}; O t(static_cast<O&&>(d.o)); got = ev; Obj r = md.moved(d.m); same(t, r, what, "the result"); } break;
    default: what = "swap";
        if constexpr (Md::movable && (T::SW != 0 || Md::massign)) {
            if (c.coin()) RUN(d.o.swap(s.o)); else RUN(opt::swap(d.o, s.o));
            if (d.m.has && s.m.has) { if (T::SW) { ++md.want.sw; std::swap(d.m.v, s.m.v); } else { Obj t = md.moved(d.m); md.move_assigned(d.m, s.m); md.move_assigned(s.m, t); md.destroyed(t); } }
            else if (d.m.has) { s.m = md.moved(d.m); md.destroyed(d.m); } else if (s.m.has) { d.m = md.moved(s.m); md.destroyed(s.m); }
        }
    }
#undef RUN
    events<T>(what, got, md.want);
    same(d.o, d.m, what, "the destination"); same(s.o, s.m, what, "the source");
    c.nontrivial(d.m.has || s.m.has || d.at || s.at);
}
}
