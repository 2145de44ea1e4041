// Copies and moves by value category: lvalues are never moved from, rvalues are never copied when they can be moved,
// and no operation makes more copies than one per result.
#pragma once
#include "conduct.hpp"
#include <map>

namespace conduct {
// how often the value of one source may be transferred to a result
struct Budget { int n; bool rvalue; };
template<class T> struct Cats {
    using O = opt::option<T>; using Md = Model<T>;
    static constexpr bool has_move = T::MC == 1 || user(T::MC);
    Case& c; const char* what = "";
    explicit Cats(Case& cc) : c(cc) {}
    // 'src' results were made from lvalues, 'mov' results from rvalues, 'from_int' objects from arguments; assignments separately
    void check(const Ev& got, int copied, int moved, int from_int = 0, int ca = 0, int ma = 0) {
        int copies = copied, moves_min = 0;
        if (has_move) moves_min = moved; else copies += moved;
        if (!user(T::CC)) copies = 0;
        if (!user(T::MC)) moves_min = 0;
        // a class without a move constructor may be copied again when a result is handed on
        if (has_move || !T::CC) REQUIRE_MSG(got.cc == copies, "option<%s>: %s: %d copies, expected %d", T::label(), what, got.cc, copies);
        else REQUIRE_MSG(got.cc >= copies, "option<%s>: %s: %d copies, expected at least %d", T::label(), what, got.cc, copies);
        REQUIRE_MSG(got.mc >= moves_min, "option<%s>: %s: %d moves, expected at least %d", T::label(), what, got.mc, moves_min);
        REQUIRE_MSG(got.vc == from_int, "option<%s>: %s: %d constructions from arguments, expected %d", T::label(), what, got.vc, from_int);
        if (T::MA == 4) { ca += ma; ma = 0; }
        if (!user(T::CA)) ca = 0;
        if (!user(T::MA)) ma = 0;
        REQUIRE_MSG(got.ca == ca && got.ma == ma, "option<%s>: %s: %d copy and %d move assignments, expected %d and %d", T::label(), what, got.ca, got.ma, ca, ma);
    }
    // no transfer of the value at all
    void silent(const Ev& got) { Ev z{}; events<T>(what, got, z); }
    void lvalue_source(const O& o, const Obj& m) { same(o, m, what, "the lvalue source"); }
    void rvalue_source(const O& o, const Obj& m) { REQUIRE_MSG(o.has_value() == m.has, "option<%s>: %s changes whether its rvalue source has a value", T::label(), what); if (m.has) REQUIRE_MSG(o.get_unchecked().v == m.v, "option<%s>: %s changes the value of its source", T::label(), what); }
    void result(const O& o, bool has, int v) { pbt::opaque(o); REQUIRE_MSG(o.has_value() == has, "option<%s>: %s: the result is %s", T::label(), what, has ? "empty" : "full"); if (has) value(o.get_unchecked(), v); }
    void value(const T& x, int v) { REQUIRE_MSG(x.v == v, "option<%s>: %s: the result has the value %d, expected %d", T::label(), what, x.v, v); REQUIRE_MSG(!x.gone, "option<%s>: %s: the result was moved from", T::label(), what); }
    // a moved-from value is marked when the move constructor is user-provided; nothing else may be
    static bool marks() { return user(T::MC); }
    void consumed(const T& x, bool expect) { if (marks()) REQUIRE_MSG(bool(x.gone) == expect, "option<%s>: %s: the value was%s moved from", T::label(), what, x.gone ? "" : " not"); }

    void references() { // accessors give the object itself
        St<T> s(c, 55); const Obj m = s.m; what = "access by reference"; const O& k = s.o; ev = Ev{};
        if (m.has) {
            T& a = s.o.get(); const T& b = k.get(); T&& d = static_cast<O&&>(s.o).get(); const T&& e = static_cast<const O&&>(k).get();
            T& f = *s.o; const T& g = *k; T&& h = *static_cast<O&&>(s.o); const T&& i = *static_cast<const O&&>(k); T& j = s.o.value(); const T& l = k.value(); T&& n = static_cast<O&&>(s.o).value(); const T&& p = static_cast<const O&&>(k).value();
            T&& q = static_cast<O&&>(s.o).value_or_throw(); T&& r = static_cast<O&&>(s.o).get_unchecked(); T* t = s.o.operator->(); const T* u = k.operator->();
            const T* all[] = {&a, &b, &d, &e, &f, &g, &h, &i, &j, &l, &n, &p, &q, &r, t, u, s.o.ptr_or_null(), k.ptr_or_null(), &*s.o.begin()};
            for (const T* x : all) REQUIRE_MSG(x == s.at, "option<%s>: an accessor gives another object", T::label());
        }
        for (T& x : s.o) REQUIRE(&x == s.at); for (const T& x : k) REQUIRE(&x == s.at);
        int calls = 0; auto f = [&](auto&& x) { ++calls; REQUIRE_MSG(std::addressof(x) == s.at, "option<%s>: the callable is given another object", T::label()); return true; };
        (void)s.o.has_value_and(f); (void)k.has_value_and(f); (void)static_cast<O&&>(s.o).has_value_and(f); (void)static_cast<const O&&>(k).has_value_and(f);
        (void)s.o.inspect(f); (void)k.inspect(f); (void)static_cast<O&&>(s.o).inspect(f); (void)static_cast<const O&&>(k).inspect(f);
        (void)s.o.map(f); (void)k.map(f); (void)static_cast<O&&>(s.o).map(f); (void)static_cast<const O&&>(k).map(f); (void)s.o.map_or(false, f); (void)static_cast<O&&>(s.o).map_or(false, f);
        auto none = [] { return false; }; (void)s.o.map_or_else(none, f); (void)static_cast<O&&>(s.o).map_or_else(none, f); auto aw = [&](auto&& x) { f(x); return opt::option<int>(1); }; (void)s.o.and_then(aw); (void)k.and_then(aw); (void)static_cast<O&&>(s.o).and_then(aw); (void)static_cast<const O&&>(k).and_then(aw);
        auto z = opt::zip_with([&](auto&& x, auto&& y) { f(x); f(y); return 1; }, s.o, k); REQUIRE(calls == (m.has ? 22 : 0)); REQUIRE(z.has_value() == m.has);
        auto mr = s.o.map([](T& x) -> T& { return x; }); REQUIRE(mr.ptr_or_null() == s.at); auto fl = opt::flatten(s.o); REQUIRE(fl.ptr_or_null() == s.at);
        auto nl = opt::from_nullable(s.o.ptr_or_null()); REQUIRE(nl.ptr_or_null() == s.at); opt::option<T&> ro; if (m.has) ro = s.o.get(); opt::option<const T&> cro = ro; REQUIRE(cro.ptr_or_null() == s.at); auto rt = ro.take(); REQUIRE(rt.ptr_or_null() == s.at);
        (void)(s.o == opt::none); (void)(opt::none < k); (void)std::hash<opt::option<T&>>{}(rt);
        silent(ev); lvalue_source(s.o, m); c.nontrivial(m.has);
    }
    template<class S> static constexpr bool movable_source = !std::is_lvalue_reference_v<S> && !std::is_const_v<std::remove_reference_t<S>>;
    // S is the type of the source expression
    template<class S> void consume(int op) {
        constexpr bool rv = movable_source<S>; if constexpr (rv ? Md::movable : Md::copyable) {
            St<T> s(c, 55); const Obj m = s.m; const int d = int(c.pick(1000)); bool moved_out = false; int cp = 0, mv = 0, vc = 0; O r; Ev got{}; auto&& src = static_cast<S>(s.o); bool has = m.has; int v = m.v; bool checked = false;
            auto one = [&] { (rv ? mv : cp) += 1; moved_out = rv; };
            switch (op) {
            case 0: { what = "value_or"; O dflt(std::in_place, d); constexpr bool drv = Md::movable; ev = Ev{}; T x = static_cast<S>(src).value_or(static_cast<std::conditional_t<drv, T&&, const T&>>(dflt.get())); got = ev; if (m.has) { if (rv) ++mv; else ++cp; moved_out = rv; } else if (drv) ++mv; else ++cp; value(x, m.has ? m.v : d); consumed(dflt.get(), drv && !m.has); checked = true; } break;
            case 1: if constexpr (Md::copyable) { what = "value_or with an lvalue alternative"; T dflt(d); ev = Ev{}; T x = static_cast<S>(src).value_or(static_cast<const T&>(dflt)); got = ev; if (m.has) one(); else ++cp; value(x, m.has ? m.v : d); consumed(dflt, false); checked = true; } else return; break;
            case 2: { what = "value_or_construct"; ev = Ev{}; T x = static_cast<S>(src).value_or_construct(d); got = ev; if (m.has) one(); else ++vc; value(x, m.has ? m.v : d); checked = true; } break;
            case 3: { what = "filter"; bool yes = c.coin(); ev = Ev{}; O x = static_cast<S>(src).filter([&](const T& y) { REQUIRE(&y == s.at); return yes; }); got = ev; has = m.has && yes; if (has) one(); result(x, has, v); checked = true; } break;
            case 4: { what = "or_else"; ev = Ev{}; O x = static_cast<S>(src).or_else([&] { return O(std::in_place, d); }); got = ev; if (m.has) one(); else { ++vc; v = d; } result(x, true, v); checked = true; } break;
            case 5: { what = "map to the value"; ev = Ev{}; O x = static_cast<S>(src).map([](auto&& y) -> T { return T(static_cast<decltype(y)>(y)); }); got = ev; if (m.has) one(); result(x, m.has, v); checked = true; } break;
            case 6: { what = "map with a callable taking its argument by value"; ev = Ev{}; auto x = static_cast<S>(src).map([](T y) { return y.v; }); got = ev; if (m.has) one(); REQUIRE(x.has_value() == m.has && (!m.has || *x == v)); checked = true; } break;
            case 7: { what = "and_then with a callable taking its argument by value"; ev = Ev{}; auto x = static_cast<S>(src).and_then([](T y) { return opt::option<int>(y.v); }); got = ev; if (m.has) one(); REQUIRE(x.has_value() == m.has && (!m.has || *x == v)); checked = true; } break;
            case 8: { what = "map_or with a callable taking its argument by value"; ev = Ev{}; int x = static_cast<S>(src).map_or(d, [](T y) { return y.v; }); got = ev; if (m.has) one(); REQUIRE(x == (m.has ? v : d)); checked = true; } break;
            case 9: { what = "map_or_else with a callable taking its argument by value"; ev = Ev{}; int x = static_cast<S>(src).map_or_else([&] { return d; }, [](T y) { return y.v; }); got = ev; if (m.has) one(); REQUIRE(x == (m.has ? v : d)); checked = true; } break;
            case 10: { what = "has_value_and with a predicate taking its argument by value"; ev = Ev{}; bool x = static_cast<S>(src).has_value_and([](T) { return true; }); got = ev; if (m.has) one(); REQUIRE(x == m.has); checked = true; } break;
            case 11: { what = "inspect with a callable taking its argument by value"; ev = Ev{}; (void)static_cast<S>(src).inspect([](T) {}); got = ev; if (m.has) one(); checked = true; } break;
            case 12: { what = "operator| with a value"; O dflt(std::in_place, d); constexpr bool drv = Md::movable; ev = Ev{}; T x = static_cast<S>(src) | static_cast<std::conditional_t<drv, T&&, const T&>>(dflt.get()); got = ev; if (m.has) one(); else if (drv) ++mv; else ++cp; value(x, m.has ? m.v : d); consumed(dflt.get(), drv && !m.has); checked = true; } break;
            case 13: { what = "unzip"; using P = std::pair<T, int>; if constexpr (std::is_constructible_v<P, T, int>) { using Q = std::conditional_t<rv, opt::option<P>&&, const opt::option<P>&>; opt::option<P> p; if (m.has) p.emplace(T(v), d); ev = Ev{}; auto u = opt::unzip(static_cast<Q>(p)); got = ev; if (m.has) (rv ? mv : cp) += 1; result(u.first, m.has, v); REQUIRE(u.second.has_value() == m.has && (!m.has || *u.second == d)); if (m.has) consumed(p->first, rv); checked = true; has = false; moved_out = false; } else return; } break;
            case 14: { what = "zip"; opt::option<int> i(d); ev = Ev{}; auto z = opt::zip(static_cast<S>(src), i); got = ev; if (m.has) one(); REQUIRE(z.has_value() == m.has); if (m.has) { value(std::get<0>(*z), v); REQUIRE(std::get<1>(*z) == d); } checked = true; } break;
            case 15: { what = "zip_with a callable taking its arguments by value"; opt::option<int> i(d); ev = Ev{}; auto z = opt::zip_with([](T x, int y) { return x.v + y; }, static_cast<S>(src), i); got = ev; if (m.has) one(); REQUIRE(z.has_value() == m.has && (!m.has || *z == v + d)); checked = true; } break;
            case 16: { what = "flatten"; using OO = opt::option<O>; using Q = std::conditional_t<rv, OO&&, const OO&>; OO oo; int depth = int(c.pick(2)); if (m.has) oo.emplace(std::in_place, v); else if (depth) oo.emplace(); ev = Ev{}; if constexpr (rv) { O f = opt::flatten(static_cast<Q>(oo)); got = ev; if (m.has) { ++mv; consumed(oo->get(), true); } result(f, m.has, v); } else { auto f = opt::flatten(static_cast<Q>(oo)); got = ev; REQUIRE(f.has_value() == m.has && (!m.has || f.ptr_or_null() == oo->ptr_or_null())); } checked = true; moved_out = false; } break;
            case 17: { what = "construction of a nested option"; ev = Ev{}; opt::option<O> oo(static_cast<S>(src)); got = ev; if (m.has) one(); REQUIRE(oo.has_value()); result(*oo, m.has, v); checked = true; } break;
            case 18: { what = "option_cast"; ev = Ev{}; auto x = opt::option_cast<typename T::Target>(static_cast<S>(src)); got = ev; REQUIRE(x.has_value() == m.has); if (m.has) { REQUIRE_MSG(x->v == v && x->how == (rv ? 2 : 1), "option<%s>: option_cast converts from an %s", T::label(), x->how == 2 ? "rvalue" : "lvalue"); moved_out = rv; } checked = true; if (user(T::MC) && m.has && rv) const_cast<T&>(s.o.get()).gone = 1; } break;
            case 19: { what = "conversion to an option of another type"; ev = Ev{}; opt::option<typename T::Target> x(static_cast<S>(src)); if (c.coin()) { x = opt::none; x = static_cast<S>(src); } got = ev; REQUIRE(x.has_value() == m.has); if (m.has) REQUIRE_MSG(x->v == v && x->how == (rv ? 2 : 1), "option<%s>: conversion from an %s", T::label(), x->how == 2 ? "rvalue" : "lvalue"); checked = true; } break;
            case 20: { what = "an option made from the value"; if (!m.has) return; using V = std::conditional_t<rv, T&&, const T&>; ev = Ev{}; O a(static_cast<V>(s.o.get())); got = ev; (rv ? mv : cp) += 1; moved_out = rv; result(a, true, v); checked = true; } break;
            case 21: { what = "make_option"; if (!m.has) return; using V = std::conditional_t<rv, T&&, const T&>; ev = Ev{}; auto a = opt::make_option(static_cast<V>(s.o.get())); got = ev; (rv ? mv : cp) += 1; moved_out = rv; result(a, true, v); checked = true; } break;
            case 22: { what = "the value as an argument of emplace"; if (!m.has) return; using V = std::conditional_t<rv, T&&, const T&>; ev = Ev{}; r.emplace(static_cast<V>(s.o.get())); got = ev; (rv ? mv : cp) += 1; moved_out = rv; result(r, true, v); checked = true; } break;
            case 23: { what = "an option used for a member of a pair"; ev = Ev{}; std::pair<O, int> p(static_cast<S>(src), 1); got = ev; if (m.has) one(); result(p.first, m.has, v); checked = true; } break;
            default: { what = "an option captured and returned"; ev = Ev{}; auto f = [](O x) { return x; }; O t = f(static_cast<S>(src)); got = ev; if (m.has) one(); result(t, m.has, v); if (!has_move && T::CC) { cp = mv = 0; } checked = true; } break;
            }
            if (!checked) return;
            check(got, cp, mv, vc);
            if (op == 13 || op == 16) lvalue_source(s.o, m); else if (!rv) lvalue_source(s.o, m); else { rvalue_source(s.o, m); if (op != 19 && m.has) consumed(s.o.get_unchecked(), moved_out && has_move); }
            c.nontrivial(m.has);
        }
    }
    // binary operators: L and R are the types of the operands
    template<class L, class R> void binary(int op) {
        constexpr bool lm = movable_source<L>, rm = movable_source<R>;
        if constexpr ((lm ? Md::movable : Md::copyable) && (rm ? Md::movable : Md::copyable)) {
            St<T> a(c, 55), b(c, 66); const Obj ma_ = a.m, mb = b.m; Ev got{}; int cp = 0, mv = 0; bool from_a = false, from_b = false;
            switch (op) {
            case 0: { what = "operator|"; ev = Ev{}; O r = static_cast<L>(a.o) | static_cast<R>(b.o); got = ev; from_a = ma_.has; from_b = !ma_.has && mb.has; result(r, ma_.has || mb.has, ma_.has ? ma_.v : mb.v); } break;
            case 1: { what = "operator^"; ev = Ev{}; O r = static_cast<L>(a.o) ^ static_cast<R>(b.o); got = ev; from_a = ma_.has && !mb.has; from_b = !ma_.has && mb.has; result(r, ma_.has != mb.has, ma_.has ? ma_.v : mb.v); } break;
            default: { what = "operator&"; ev = Ev{}; O r = static_cast<L>(a.o) & static_cast<R>(b.o); got = ev; from_b = ma_.has && mb.has; result(r, from_b, mb.v); } break;
            }
            if (from_a) (lm ? mv : cp) += 1;
            if (from_b) (rm ? mv : cp) += 1;
            check(got, cp, mv);
            rvalue_source(a.o, ma_); rvalue_source(b.o, mb);
            if (ma_.has) consumed(a.o.get_unchecked(), from_a && lm); if (mb.has) consumed(b.o.get_unchecked(), from_b && rm);
            c.nontrivial(ma_.has || mb.has);
        }
    }
    void or_assign() {
        St<T> a(c, 55), b(c, 66); const Obj ma_ = a.m, mb = b.m; const int d = int(c.pick(1000)); Ev got{};
        switch (c.pick(4)) {
        case 0: what = "operator|= with an lvalue option"; if constexpr (Md::cassign) { ev = Ev{}; a.o |= static_cast<const O&>(b.o); got = ev; check(got, !ma_.has && mb.has, 0); lvalue_source(b.o, mb); result(a.o, ma_.has || mb.has, ma_.has ? ma_.v : mb.v); } break;
        case 1: what = "operator|= with an rvalue option"; if constexpr (Md::massign) { ev = Ev{}; a.o |= static_cast<O&&>(b.o); got = ev; check(got, 0, !ma_.has && mb.has); rvalue_source(b.o, mb); if (mb.has) consumed(b.o.get_unchecked(), !ma_.has && has_move); result(a.o, ma_.has || mb.has, ma_.has ? ma_.v : mb.v); } break;
        case 2: what = "operator|= with an lvalue"; if constexpr (Md::cassign) { T x(d); ev = Ev{}; a.o |= static_cast<const T&>(x); got = ev; check(got, !ma_.has, 0); consumed(x, false); result(a.o, true, ma_.has ? ma_.v : d); } break;
        default: what = "operator|= with an rvalue"; if constexpr (Md::massign) { T x(d); ev = Ev{}; a.o |= static_cast<T&&>(x); got = ev; check(got, 0, !ma_.has); consumed(x, !ma_.has && has_move); result(a.o, true, ma_.has ? ma_.v : d); } break;
        }
        c.nontrivial(ma_.has || mb.has);
    }
    void containers() { // options kept in standard containers, and of standard containers
        if constexpr (Md::movable && Md::massign) {
            what = "a growing vector of options"; constexpr bool keeps = has_move && (std::is_nothrow_move_constructible_v<T> || !Md::copyable); const int n = 1 + int(c.pick(6)); std::vector<O> v; int full = 0;
            for (int i = 0; i < n; ++i) { if (c.pick(3)) { v.emplace_back(std::in_place, i); ++full; } else v.emplace_back(); v.back(); if (keeps && c.coin()) v.shrink_to_fit(); }
            ev = Ev{}; v.reserve(v.capacity() + 1); if (keeps) REQUIRE_MSG(ev.cc == 0, "option<%s>: %d copies in a growing vector", T::label(), ev.cc);
            std::vector<O> w(static_cast<std::vector<O>&&>(v)); ev = Ev{}; if (w.size() > 1) { std::swap(w.front(), w.back()); w.insert(w.begin(), O()); w.erase(w.begin()); } if (has_move && (T::MA != 4)) REQUIRE_MSG(keeps ? ev.cc == 0 && ev.ca == 0 : true, "option<%s>: copies in a vector of options", T::label()); int k = 0; for (auto& x : w) k += x.has_value(); REQUIRE(k == full); c.nontrivial(full > 0);
        }
    }
    void element_access() { // elements are referred to, never transferred
        what = "element access"; St<T> dummy(c, 1); const int a = int(c.pick(1000)), b = int(c.pick(1000)); std::size_t i = c.pick(3); std::array<T, 2> arr{{T(a), T(b)}}; std::pair<T, T> pr{std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(b)}; std::map<int, T> mp; mp.emplace(1, a); std::variant<int, T> va(std::in_place_index<1>, a); opt::option<std::pair<T, T>> op; op.emplace(std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(b));
        ev = Ev{};
        auto x = opt::at(arr, i); REQUIRE(x.has_value() == (i < 2)); if (i < 2) REQUIRE(x.ptr_or_null() == &arr[i]); REQUIRE(opt::at_front(arr).ptr_or_null() == &arr[0] && opt::at_back(arr).ptr_or_null() == &arr[1]);
        REQUIRE(opt::lookup(mp, 1).ptr_or_null() == &mp.at(1) && !opt::lookup(mp, 2).has_value()); REQUIRE(opt::get<1>(va).ptr_or_null() == &std::get<1>(va) && !opt::get<0>(va).has_value()); REQUIRE(opt::get<T>(va).ptr_or_null() == &std::get<1>(va));
        REQUIRE(opt::get<0>(op).ptr_or_null() == &op->first && opt::get<1>(op).ptr_or_null() == &op->second); const auto& cop = op; REQUIRE(opt::get<1>(cop).ptr_or_null() == &op->second); REQUIRE(opt::get<0>(static_cast<opt::option<std::pair<T, T>>&&>(op)).ptr_or_null() == &op->first); REQUIRE(opt::get<1>(static_cast<std::variant<int, T>&&>(va)).ptr_or_null() == &std::get<1>(va));
        auto m = op.map(&std::pair<T, T>::first); (void)m;
        silent(ev); c.nontrivial();
    }
};
template<class T> void cats(Case& c) {
    using O = opt::option<T>; Cats<T> k(c); int what = int(c.pick(10)); c.log("option<%s> part %d", T::label(), what);
    switch (what) {
    case 0: k.references(); break;
    case 1: case 2: k.template consume<O&>(int(c.pick(25))); break;
    case 3: k.template consume<const O&>(int(c.pick(25))); break;
    case 4: case 5: k.template consume<O&&>(int(c.pick(25))); break;
    case 6: k.template consume<const O&&>(int(c.pick(25))); break;
    case 7: { int op = int(c.pick(3)); switch (c.pick(4)) { case 0: k.template binary<const O&, const O&>(op); break; case 1: k.template binary<O&&, const O&>(op); break; case 2: k.template binary<const O&, O&&>(op); break; default: k.template binary<O&&, O&&>(op); } } break;
    case 8: k.or_assign(); break;
    default: if (c.coin()) k.containers(); else k.element_access(); break;
    }
}
}
