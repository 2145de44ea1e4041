// Special members, availability and implicitness of option<T> as documented functions of T.
#pragma once
#include "types.hpp"
#include <any>
#include <functional>
#include <memory>
#include <optional>
#include <variant>
#include <vector>

namespace p19 {
struct Ev { int cc, mc, ca, ma, dt; };
inline Ev ev;
struct Attr { const char* name; bool got, want; };
inline void attrs(const char* type, const Attr* a, std::size_t n) { for (std::size_t i = 0; i < n; ++i) if (a[i].got != a[i].want) FAIL("option<%s>: %s is %s, documented %s", type, a[i].name, a[i].got ? "true" : "false", a[i].want ? "true" : "false"); pbt::count_evals(n, n); }

template<class A, class B, class = void> struct opt_swap { static constexpr bool value = false, nothrow = false; };
template<class A, class B> struct opt_swap<A, B, decltype(opt::swap(std::declval<A&>(), std::declval<B&>()))> { static constexpr bool value = true, nothrow = noexcept(opt::swap(std::declval<A&>(), std::declval<B&>())); };

// the special members of option<T> from the traits of T. A move operation which is documented as deleted is defaulted and defined as deleted,
// so overload resolution ignores it and moving copies when the copy operation is available (as for std::optional).
template<class T> void mirror(const char* name) {
    using O = opt::option<T>; constexpr bool ref = std::is_reference_v<T>;
    constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = std::is_copy_assignable_v<T>, ma = std::is_move_assignable_v<T>;
    constexpr bool ncc = std::is_nothrow_copy_constructible_v<T>, nmc = std::is_nothrow_move_constructible_v<T>, nca = std::is_nothrow_copy_assignable_v<T>, nma = std::is_nothrow_move_assignable_v<T>;
    constexpr bool tcc = std::is_trivially_copy_constructible_v<T>, tmc = std::is_trivially_move_constructible_v<T>, tca = std::is_trivially_copy_assignable_v<T>, tma = std::is_trivially_move_assignable_v<T>;
    constexpr bool td = ref || std::is_trivially_destructible_v<T>;
    using R = std::remove_reference_t<T>;
    constexpr bool sw = mc && std::is_swappable_with_v<T&, T&>, nsw = sw && nmc && std::is_nothrow_swappable_with_v<T&, T&>; (void)sizeof(R*);
    const Attr a[] = {
        {"default constructible without throwing", std::is_nothrow_default_constructible_v<O>, true},
        {"constructible from none without throwing", std::is_nothrow_constructible_v<O, opt::none_t>, true}, {"implicitly convertible from none", std::is_convertible_v<opt::none_t, O>, true},
        {"assignable from none without throwing", std::is_nothrow_assignable_v<O&, opt::none_t>, true}, {"resettable without throwing", noexcept(std::declval<O&>().reset()), true},
        {"copy constructible", std::is_copy_constructible_v<O>, ref || cc}, {"move constructible", std::is_move_constructible_v<O>, ref || mc || cc},
        {"copy assignable", std::is_copy_assignable_v<O>, ref || (cc && ca)}, {"move assignable", std::is_move_assignable_v<O>, ref || (mc && ma) || (cc && ca)},
        {"implicitly copy constructible", std::is_convertible_v<const O&, O>, ref || cc}, {"implicitly move constructible", std::is_convertible_v<O&&, O>, ref || mc || cc},
        {"nothrow copy constructible", std::is_nothrow_copy_constructible_v<O>, ref || ncc}, {"nothrow move constructible", std::is_nothrow_move_constructible_v<O>, ref || (mc ? nmc : ncc)},
        {"nothrow copy assignable", std::is_nothrow_copy_assignable_v<O>, ref || (ncc && nca)}, {"nothrow move assignable", std::is_nothrow_move_assignable_v<O>, ref || (mc && ma ? nmc && nma : ncc && nca)},
        {"trivially copy constructible", std::is_trivially_copy_constructible_v<O>, ref || tcc}, {"trivially move constructible", std::is_trivially_move_constructible_v<O>, ref || (mc ? tmc : tcc)},
        {"trivially copy assignable", std::is_trivially_copy_assignable_v<O>, ref || (tcc && tca && td)}, {"trivially move assignable", std::is_trivially_move_assignable_v<O>, ref || (mc && ma ? tmc && tma && td : tcc && tca && td)},
        {"destructible", std::is_destructible_v<O>, true}, {"nothrow destructible", std::is_nothrow_destructible_v<O>, true}, {"trivially destructible", std::is_trivially_destructible_v<O>, td},
        {"trivially copyable (when all operations of the contained type are trivial)", !(ref || (std::is_trivially_copyable_v<T> && tcc && tmc && tca && tma)) || std::is_trivially_copyable_v<O>, true},
        {"swappable by opt::swap", opt_swap<O, O>::value, sw}, {"nothrow swappable by opt::swap", opt_swap<O, O>::nothrow, nsw},
    };
    attrs(name, a, sizeof a / sizeof *a);
}
// what copying, moving and assigning actually does: state, value and number of calls of each special member of T
struct Modes { const char* name; int cc, mc, ca, ma; bool dt; };
template<class T, int Op> void conduct_op(Case& c, const Modes& m) {
    using O = opt::option<T>; const int v = int(c.pick(1000)), w = int(c.pick(1000)); const bool from = c.pick(4) != 0, to = c.coin(); constexpr bool mv = Op % 2 == 1;
    static const char* const on[] = {"copy construction", "move construction", "copy assignment", "move assignment"}; const char* const op = on[Op]; const char* const name = m.name;
    c.log("option<%s> %s from %d to %d", name, op, from, to);
    auto check = [&](const O& o, Ev got, Ev want) {
        REQUIRE_MSG(o.has_value() == from, "option<%s>: %s from %s to %s gives an option which is %s", name, op, from ? "full" : "empty", to ? "full" : "empty", o.has_value() ? "full" : "empty");
        if (from) REQUIRE_MSG(o.get_unchecked().v == v, "option<%s>: %s gives the value %d instead of %d", name, op, o.get_unchecked().v, v);
        REQUIRE_MSG(got.cc == want.cc && got.mc == want.mc && got.ca == want.ca && got.ma == want.ma && got.dt == want.dt, "option<%s>: %s from %s to %s: %d/%d copies, %d/%d moves, %d/%d copy assignments, %d/%d move assignments, %d/%d destructions", name, op, from ? "full" : "empty", to ? "full" : "empty", got.cc, want.cc, got.mc, want.mc, got.ca, want.ca, got.ma, want.ma, got.dt, want.dt);
        c.nontrivial(from || to);
    };
    auto user = [](int x) { return int(x == 2 || x == 3); }; Ev ctor{}, asgn{}, none{};
    if (mv && m.mc != 4) ctor.mc = user(m.mc); else ctor.cc = user(m.cc);
    if (mv && m.ma != 4) asgn.ma = user(m.ma); else asgn.ca = user(m.ca);
    O src; if (from) src.emplace(v);
    if constexpr (Op < 2) {
        ev = Ev{}; if constexpr (mv) { O d(static_cast<O&&>(src)); Ev got = ev; pbt::opaque(d); check(d, got, from ? ctor : none); } else { O d(static_cast<const O&>(src)); Ev got = ev; pbt::opaque(d); check(d, got, from ? ctor : none); }
    } else {
        O d; if (to) d.emplace(w);
        ev = Ev{}; if constexpr (mv) d = static_cast<O&&>(src); else d = static_cast<const O&>(src);
        Ev got = ev; pbt::opaque(d); Ev want{}; if (from && to) want = asgn; else if (from) want = ctor; else if (to) want.dt = m.dt;
        check(d, got, want);
    }
    pbt::opaque(src); REQUIRE_MSG(src.has_value() == from, "option<%s>: %s changed the state of the source", name, op);
}
template<class T> void conduct(Case& c, const char* name, int CC, int MC, int CA, int MA, bool DT) {
    constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = std::is_copy_assignable_v<T>, ma = std::is_move_assignable_v<T>; Modes m{name, CC, MC, CA, MA, DT};
    switch (c.pick(4)) {
    case 0: if constexpr (cc) conduct_op<T, 0>(c, m); break;
    case 1: if constexpr (mc) conduct_op<T, 1>(c, m); break;
    case 2: if constexpr (cc && ca) conduct_op<T, 2>(c, m); break;
    default: if constexpr (mc && ma) conduct_op<T, 3>(c, m); break;
    }
}
// ------------------------------------------------------------------ availability and implicitness
template<class T, class U> inline constexpr bool icfo = std::is_constructible_v<T, opt::option<U>&> || std::is_constructible_v<T, const opt::option<U>&> || std::is_constructible_v<T, opt::option<U>&&> || std::is_constructible_v<T, const opt::option<U>&&>
    || std::is_convertible_v<opt::option<U>&, T> || std::is_convertible_v<const opt::option<U>&, T> || std::is_convertible_v<opt::option<U>&&, T> || std::is_convertible_v<const opt::option<U>&&, T>;
template<class T, class U> inline constexpr bool iafo = std::is_assignable_v<T&, opt::option<U>&> || std::is_assignable_v<T&, const opt::option<U>&> || std::is_assignable_v<T&, opt::option<U>&&> || std::is_assignable_v<T&, const opt::option<U>&&>;
template<class T> inline constexpr bool is_opt = false; template<class T> inline constexpr bool is_opt<opt::option<T>> = true;
template<class X> using rcvr = std::remove_cv_t<std::remove_reference_t<X>>;

// from the expression of type Q (as in declval<Q>()) that is not an option
template<class T, class Q> void from_value(const char* tn, const char* qn, const char* cat) {
    using O = opt::option<T>;
    constexpr bool vc = std::is_constructible_v<T, Q>, im = vc && std::is_convertible_v<Q, T>, va = vc && std::is_assignable_v<T&, Q>;
    constexpr bool as = va || (im && std::is_assignable_v<O&, O>);
    auto t = [&](const char* what, bool got, bool want) { if (got != want) FAIL("option<%s> %s %s%s: %s, documented %s", tn, what, qn, cat, got ? "yes" : "no", want ? "yes" : "no"); };
    t("is constructible from", std::is_constructible_v<O, Q>, vc); t("is implicitly convertible from", std::is_convertible_v<Q, O>, im); t("is assignable from", std::is_assignable_v<O&, Q>, as);
    t("is constructible in place from", std::is_constructible_v<O, std::in_place_t, Q>, vc);
    pbt::count_evals(4, 4);
}
// from an expression of type 'option<U> with the qualification of Q'
template<class T, class U, class Qo> void from_option(const char* tn, const char* qn, const char* cat) {
    using O = opt::option<T>; constexpr bool b = std::is_same_v<std::remove_cv_t<T>, bool>; constexpr bool rv = !std::is_lvalue_reference_v<Qo> && !std::is_const_v<std::remove_reference_t<Qo>>;
    constexpr bool vc = !b && std::is_constructible_v<T, Qo>, vci = vc && std::is_convertible_v<Qo, T>, va = std::is_constructible_v<T, Qo> && std::is_assignable_v<T&, Qo>;
    constexpr bool guard = b || !icfo<T, U>;
    constexpr bool c1 = guard && std::is_constructible_v<T, const U&>, c1i = c1 && std::is_convertible_v<const U&, T>;
    constexpr bool c2 = rv && guard && std::is_constructible_v<T, U&&>, c2i = c2 && std::is_convertible_v<U&&, T>;
    constexpr bool ag = !icfo<T, U> && !iafo<T, U>;
    constexpr bool a1 = ag && std::is_constructible_v<T, const U&> && std::is_assignable_v<T&, const U&>, a2 = rv && ag && std::is_constructible_v<T, U&&> && std::is_assignable_v<T&, U&&>;
    constexpr bool cons = vc || c1 || c2, im = vci || c1i || c2i, as = va || a1 || a2 || (im && std::is_assignable_v<O&, O>);
    auto t = [&](const char* what, bool got, bool want) { if (got != want) FAIL("option<%s> %s option<%s>%s: %s, documented %s", tn, what, qn, cat, got ? "yes" : "no", want ? "yes" : "no"); };
    t("is constructible from", std::is_constructible_v<O, Qo>, cons); t("is implicitly convertible from", std::is_convertible_v<Qo, O>, im); t("is assignable from", std::is_assignable_v<O&, Qo>, as);
    pbt::count_evals(3, 3);
}
template<class T, class U> void pair_of(const char* tn, const char* un) {
    if constexpr (!is_opt<U>) {
        if constexpr (!std::is_same_v<U, opt::none_t>) { from_value<T, U&>(tn, un, "&"); from_value<T, const U&>(tn, un, " const&"); from_value<T, U>(tn, un, "&&"); from_value<T, const U>(tn, un, " const&&"); }
    }
    if constexpr (!std::is_same_v<T, U>) {
        using Q = opt::option<U>;
        { from_option<T, U, Q&>(tn, un, "&"); from_option<T, U, const Q&>(tn, un, " const&"); from_option<T, U, Q>(tn, un, "&&"); from_option<T, U, const Q>(tn, un, " const&&"); }
    }
}
template<class T, class... U> void against(Case& c, const char* tn, const char* const* un) { std::size_t i = 0; (pair_of<T, U>(tn, un[i++]), ...); c.nontrivial(); }
}
using namespace p19;
