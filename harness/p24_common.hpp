// Conversions between options of different types, compared with the same program over std::optional (whose conversion rules
// are the same for classes that are not aggregates, and for scalars).
// P: template<template<class> class O> using To/From; make<O>(int) -> From; dst<O>(int) -> To; code(value, out).
#pragma once
#include "types.hpp"
#include <any>
#include <functional>
#include <optional>
#include <variant>

namespace conv {
using Out = std::vector<long>;
struct In { int op, cat; bool src, dst, deep; int v, w; };
template<class S, class X> constexpr decltype(auto) as(X& x) { return static_cast<S>(x); }
template<class A, class B> constexpr long mask() { return long(std::is_constructible_v<A, B>) | long(std::is_convertible_v<B, A>) << 1 | long(std::is_assignable_v<A&, B>) << 2; }
template<class A, class U> void masks(Out& o) { o.push_back(mask<A, U&>()); o.push_back(mask<A, const U&>()); o.push_back(mask<A, U&&>()); o.push_back(mask<A, const U&&>()); }
template<template<class> class O, class P> struct Prog {
    using T = typename P::template To<O>; using F = typename P::template From<O>;
    template<class A> static void put(Out& o, const A& a) { if constexpr (std::is_same_v<A, O<T>> || std::is_same_v<A, O<F>> || std::is_same_v<A, O<O<T>>> || std::is_same_v<A, O<O<F>>>) { o.push_back(a.has_value()); if (a.has_value()) put(o, *a); } else P::code(a, o); }
    static void traits(Out& o) {
        masks<O<T>, O<F>>(o); masks<O<T>, F>(o); masks<O<T>, T>(o); masks<O<T>, O<T>>(o); masks<O<O<T>>, O<F>>(o); masks<O<O<T>>, F>(o); masks<O<O<T>>, O<T>>(o); masks<O<O<T>>, O<O<F>>>(o); masks<O<T>, O<O<F>>>(o); masks<O<const T>, O<F>>(o); masks<O<T>, O<const F>>(o); masks<O<F>, O<T>>(o);
    }
    template<class S, class D, class E> static void go(E& e, const In& in, Out& out) {
        constexpr bool main = std::is_same_v<D, O<T>>; // the rarer ways of initialization only for plain options
        switch (main ? in.op : in.op % 3) {
        case 0: if constexpr (std::is_constructible_v<D, S>) { D d(static_cast<S>(e)); out.push_back(10); put(out, d); } else out.push_back(-1); break;
        case 1: if constexpr (std::is_convertible_v<S, D>) { D d = static_cast<S>(e); out.push_back(11); put(out, d); } else out.push_back(-1); break;
        case 2: if constexpr (std::is_assignable_v<D&, S>) { D d; if (in.dst) { if constexpr (std::is_same_v<D, O<O<T>>>) { if (in.deep) d.emplace(); else { d.emplace(); d->emplace(P::template dst<O>(in.w)); } } else d.emplace(P::template dst<O>(in.w)); } P::template start<O>(); D& r = (d = static_cast<S>(e)); out.push_back(&r == &d); put(out, d); } else out.push_back(-1); break;
        case 3: if constexpr (main && std::is_constructible_v<D, S>) { D* p = new D{static_cast<S>(e)}; put(out, *p); delete p; } else out.push_back(-1); break;
        case 4: if constexpr (main && std::is_convertible_v<S, D>) { auto f = [](D d, Out& o) { put(o, d); }; f(static_cast<S>(e), out); } else out.push_back(-1); break;
        case 5: if constexpr (main && std::is_convertible_v<S, D>) { auto f = [&]() -> D { return static_cast<S>(e); }; put(out, f()); } else out.push_back(-1); break;
        default: if constexpr (main && std::is_constructible_v<D, S> && std::is_constructible_v<std::pair<D, int>, S, int>) { std::pair<D, int> p(static_cast<S>(e), 1); put(out, p.first); } else out.push_back(-1); break;
        }
        out.push_back(P::template events<O>());
    }
    template<class D, class E> static void cat(E& e, const In& in, Out& out) {
        P::template start<O>();
        switch (in.cat) { case 0: go<E&, D>(e, in, out); break; case 1: go<const E&, D>(e, in, out); break; case 2: go<E&&, D>(e, in, out); break; default: go<const E&&, D>(e, in, out); }
        put(out, e);
    }
    static void run(int pair, const In& in, Out& out) {
        traits(out);
        O<F> s; if (in.src) s.emplace(P::template make<O>(in.v));
        switch (pair) {
        case 0: cat<O<T>>(s, in, out); break;
        case 1: { F f = P::template make<O>(in.v); cat<O<T>>(f, in, out); } break;
        case 2: if constexpr (!P::light) { O<O<F>> n; if (in.deep) { n.emplace(); if (in.src) n->emplace(P::template make<O>(in.v)); } cat<O<O<T>>>(n, in, out); } break;
        case 3: cat<O<O<T>>>(s, in, out); break;
        case 4: if constexpr (!P::light) { F f = P::template make<O>(in.v); cat<O<O<T>>>(f, in, out); } break;
        case 5: if constexpr (!P::light) { T t = P::template dst<O>(in.w); cat<O<T>>(t, in, out); } break;
        default: if constexpr (!P::light) { O<T> t; if (in.src) t.emplace(P::template dst<O>(in.w)); cat<O<O<T>>>(t, in, out); } break;
        }
    }
};
template<class P> void test(Case& c) {
    In in; int pair = int(c.pick(10)); if (pair > 6) pair = 0; in.op = int(c.pick(7)); in.cat = int(c.pick(4)); in.src = c.chance(3, 4); in.dst = c.coin(); in.deep = c.chance(3, 4); in.v = int(c.pick(1000)); in.w = int(c.pick(1000));
    c.log("%s: pair %d op %d category %d source %d destination %d", P::label(), pair, in.op, in.cat, int(in.src), int(in.dst));
    Out a, b; Prog<opt::option, P>::run(pair, in, a); Prog<std::optional, P>::run(pair, in, b);
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) {
        static const char* const names[] = {"option<To> from option<From>", "option<To> from From", "option<To> from To", "option<To> from option<To>", "option<option<To>> from option<From>", "option<option<To>> from From", "option<option<To>> from option<To>", "option<option<To>> from option<option<From>>", "option<To> from option<option<From>>", "option<const To> from option<From>", "option<To> from option<const From>", "option<From> from option<To>"};
        if (i < 48) FAIL("%s: %s (category %zu): constructible/convertible/assignable is %ld%ld%ld, expected %ld%ld%ld", P::label(), names[i / 4], i % 4, a[i] & 1, a[i] >> 1 & 1, a[i] >> 2 & 1, b[i] & 1, b[i] >> 1 & 1, b[i] >> 2 & 1);
        FAIL("%s: pair %d op %d category %d source %d destination %d: observation %zu is %ld, expected %ld", P::label(), pair, in.op, in.cat, int(in.src), int(in.dst), i - 48, a[i], b[i]);
    }
    REQUIRE(a.size() == b.size()); c.nontrivial(in.src && b.size() > 50);
}
// generated classes: what happened to them
template<template<class> class O, int N> struct Log { static inline long n = 0; };
}
