// Iteration: a model of positions 0..has_value() next to real iterators, and every way of visiting.
#pragma once
#include "p09_common.hpp"
#include <iterator>
#include <algorithm>
#include <numeric>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
template<class It> struct Pos { It it; int at; };
// O: option type, possibly const
template<class T, bool Const> struct Iter {
    using B = opt::option<T>; using O = std::conditional_t<Const, const B, B>; using V = bare<T>;
    using It = decltype(std::declval<O&>().begin()); using CIt = decltype(std::declval<const B&>().begin());
    using Elem = std::remove_reference_t<decltype(*std::declval<It>())>;
    static constexpr bool is_const_elem = std::is_reference_v<T> ? std::is_const_v<std::remove_reference_t<T>> : (Const || std::is_const_v<T>);
    static_assert(std::is_same_v<Elem, std::conditional_t<is_const_elem, const V, V>>, "constness of the visited object");
    static_assert(std::is_same_v<It, std::conditional_t<Const, typename B::const_iterator, typename B::iterator>>);
    using tr = std::iterator_traits<It>;
    static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename tr::iterator_category> && std::is_same_v<typename tr::difference_type, std::ptrdiff_t> && std::is_same_v<typename tr::reference, Elem&> && std::is_same_v<typename tr::pointer, Elem*> && std::is_same_v<std::remove_cv_t<typename tr::value_type>, V>);
    static_assert(std::is_convertible_v<It, CIt> && std::is_default_constructible_v<It> && std::is_trivially_copyable_v<It>);
    static_assert(std::is_same_v<decltype(std::declval<O&>().end()), It> && noexcept(std::declval<O&>().begin()) && noexcept(std::declval<O&>().end()));
#if __cplusplus >= 202002L
    static_assert(std::contiguous_iterator<It> && std::sentinel_for<It, It> && std::sized_sentinel_for<It, It>);
    static_assert(std::ranges::contiguous_range<O> && std::ranges::common_range<O> && std::ranges::sized_range<O>);
    static_assert(is_const_elem || !std::is_assignable_v<V&, V> || std::indirectly_writable<It, V>);
#endif
    static void laws(Case& c, Held<T>& h) {
        O& o = h.o; const int n = int(h.engaged); pbt::opaque(h.o); const V* where = n ? h.address() : nullptr; u64 s = h.s;
        Pos<It> p[3] = {{o.begin(), 0}, {o.end(), n}, {o.begin(), 0}}; int steps = 1 + int(c.pick(14));
        for (int k = 0; k < steps; ++k) {
            Pos<It>& a = p[c.pick(3)]; Pos<It>& b = p[c.pick(3)]; int op = int(c.pick(16)); int to = n ? int(c.pick(2)) : 0; std::ptrdiff_t d = to - a.at; c.log("op %d at %d to %d of %d", op, a.at, to, n);
            switch (op) {
            case 0: if (a.at < n) { It& r = ++a.it; ++a.at; REQUIRE(&r == &a.it); } break;
            case 1: if (a.at < n) { It r = a.it++; REQUIRE(r - o.begin() == a.at); ++a.at; } break;
            case 2: if (a.at > 0) { It& r = --a.it; --a.at; REQUIRE(&r == &a.it); } break;
            case 3: if (a.at > 0) { It r = a.it--; REQUIRE(r - o.begin() == a.at); --a.at; } break;
            case 4: { It& r = a.it += d; a.at = to; REQUIRE(&r == &a.it); break; }
            case 5: { It& r = a.it -= -d; a.at = to; REQUIRE(&r == &a.it); break; }
            case 6: a = {a.it + d, to}; break;
            case 7: a = {d + a.it, to}; break;
            case 8: a = {a.it - (-d), to}; break;
            case 9: a = b; break;
            case 10: { using std::swap; swap(a.it, b.it); swap(a.at, b.at); break; }
            case 11: if (n) { auto& r = a.it[0 - a.at]; REQUIRE(std::addressof(r) == where && Ty<V>::same(r, s)); } break;
            case 12: if (a.at < n) { auto& r = *a.it; REQUIRE_MSG(std::addressof(r) == where, "the iterator refers to another object"); REQUIRE(Ty<V>::same(r, s)); auto* q = a.it.operator->(); REQUIRE(q == where); } break;
            case 13: if (a.at < n) { if constexpr (!is_const_elem && std::is_move_assignable_v<V>) { s = mix(s); *a.it = Ty<V>::make(s); if constexpr (std::is_reference_v<T>) REQUIRE(Ty<V>::same(h.target, s)); } } break;
            case 14: a.it = std::next(o.begin(), a.at); b.it = std::prev(o.end(), n - b.at); break;
            default: { It x = a.it; std::advance(x, d); REQUIRE(x - a.it == d && std::distance(a.it, x) == d); a = {x, to}; } }
            pbt::opaque(p);
            for (auto& x : p) { REQUIRE_MSG(x.it == o.begin() + x.at && x.it == o.end() - (n - x.at), "an iterator is at another position than its model"); const CIt cx = x.it; REQUIRE(cx - std::as_const(h.o).begin() == x.at);
                for (auto& y : p) { const bool r[] = {x.it == y.it, x.it != y.it, x.it < y.it, x.it > y.it, x.it <= y.it, x.it >= y.it}, e[] = {x.at == y.at, x.at != y.at, x.at < y.at, x.at > y.at, x.at <= y.at, x.at >= y.at};
                    for (int q = 0; q < 6; ++q) REQUIRE_MSG(r[q] == e[q], "comparison %d of iterators at %d and %d of a range of %d is %d", q, x.at, y.at, n, int(r[q]));
                    REQUIRE_MSG(y.it - x.it == y.at - x.at, "difference of iterators at %d and %d is %td", y.at, x.at, y.it - x.it); } }
            REQUIRE(o.has_value() == (n == 1)); if (n) REQUIRE_MSG(Ty<V>::same(o.get(), s) && h.address() == where, "iteration changed the contained value");
        }
        h.s = s; c.nontrivial(n == 1 || steps > 2);
    }
    static void visit(Case& c, Held<T>& h) {
        O& o = h.o; const int n = int(h.engaged); pbt::opaque(h.o); const V* where = n ? h.address() : nullptr; u64 s = h.s, s2 = mix(s); int seen = 0; const int op = int(c.pick(18)); c.log("visit %d of a range of %d", op, n);
        constexpr bool writes = !is_const_elem && std::is_move_assignable_v<V>;
        auto see = [&](auto& x) { static_assert(std::is_same_v<decltype(x), Elem&>, "constness of the visited object"); ++seen; REQUIRE_MSG(std::addressof(x) == where && Ty<V>::same(x, s), "visited another object than the contained one"); if constexpr (writes) x = Ty<V>::make(s2); };
        auto look = [&](auto& x) { ++seen; REQUIRE_MSG(std::addressof(x) == where && Ty<V>::same(x, s), "visited another object than the contained one"); return true; };
        bool wrote = false;
        switch (op) {
        case 0: for (auto&& x : o) see(x); wrote = writes; break;
        case 1: for (auto i = o.begin(); i != o.end(); ++i) see(*i); wrote = writes; break;
        case 2: for (auto i = o.begin(), e = o.end(); i < e; i += 1) see(*i); wrote = writes; break;
        case 3: std::for_each(o.begin(), o.end(), see); wrote = writes; break;
        case 4: std::for_each(std::make_reverse_iterator(o.end()), std::make_reverse_iterator(o.begin()), see); wrote = writes; break;
        case 5: REQUIRE(std::count_if(o.begin(), o.end(), look) == n); break;
        case 6: REQUIRE((std::find_if(o.begin(), o.end(), look) == o.end()) == (n == 0)); break;
        case 7: REQUIRE(std::all_of(o.begin(), o.end(), look)); break;
        case 8: { std::vector<const V*> v; std::transform(o.begin(), o.end(), std::back_inserter(v), [&](auto& x) { look(x); return std::addressof(x); }); REQUIRE(int(v.size()) == n && (!n || v[0] == where)); break; }
        case 9: if constexpr (std::is_copy_constructible_v<V>) { std::vector<V> v(o.begin(), o.end()); REQUIRE(int(v.size()) == n); if (n) REQUIRE(Ty<V>::same(v[0], s)); seen = n; } else seen = n; break;
        case 10: { int r = std::accumulate(o.begin(), o.end(), 5, [&](int a, auto& x) { look(x); return a + 1; }); REQUIRE(r == 5 + n); break; }
        case 11: { auto i = std::partition_point(o.begin(), o.end(), [&](auto& x) { return look(x); }); REQUIRE(i == o.end()); break; }
        case 12: { REQUIRE(std::distance(o.begin(), o.end()) == n && (o.begin() == o.end()) == (n == 0) && std::size_t(std::end(o) - std::begin(o)) == std::size_t(n) && std::cend(o) - std::cbegin(o) == n); seen = n; break; }
        case 13: if constexpr (std::is_move_constructible_v<V> && !is_const_elem && std::is_move_assignable_v<V>) { std::vector<V> v(std::make_move_iterator(o.begin()), std::make_move_iterator(o.end())); REQUIRE(int(v.size()) == n); if (n) { REQUIRE(Ty<V>::same(v[0], s) && o.has_value()); *o.begin() = Ty<V>::make(s2); wrote = true; } } seen = n; break;
#if __cplusplus >= 202002L
        case 14: { std::span<Elem> sp{o}; REQUIRE(int(sp.size()) == n && (!n || sp.data() == where)); for (auto& x : sp) see(x); wrote = writes; break; }
        case 15: { for (auto& x : std::views::reverse(o)) see(x); wrote = writes; break; }
        case 16: { bool keep = c.coin(); int m = 0; for (auto& x : std::views::filter(o, [&](auto& y) { look(y); return keep; })) { REQUIRE(std::addressof(x) == where); ++m; } REQUIRE(m == (keep ? n : 0)); break; }
        case 17: { REQUIRE(int(std::ranges::size(o)) == n && std::ranges::empty(o) == (n == 0) && std::ranges::data(o) == where && std::to_address(o.begin()) == where && std::to_address(o.end()) == where + n); REQUIRE(std::ranges::distance(o) == n); int m = 0; std::ranges::for_each(std::views::transform(o, [&](auto& x) { look(x); return 7; }), [&](int q) { m += q; }); REQUIRE(m == 7 * n); break; }
#endif
        default: { int k = 0; for (auto r = std::make_reverse_iterator(o.end()); r != std::make_reverse_iterator(o.begin()); ++r) { look(*r); ++k; } REQUIRE(k == n); } }
        REQUIRE_MSG(seen == n, "visit %d of an option that is %d visited %d objects", op, n, seen);
        if (wrote && n) { if constexpr (std::is_reference_v<T>) REQUIRE(Ty<V>::same(h.target, s2)); h.s = s2; }
        h.unchanged("iteration"); c.nontrivial(n == 1);
    }
};
template<class T> void iteration(Case& c) {
    reg::reset();
    {
        u64 s = c.interesting(); Held<T> h(c.coin(), s); int rounds = 1 + int(c.pick(4));
        for (int k = 0; k < rounds; ++k) {
            switch (c.pick(4)) { case 0: Iter<T, false>::laws(c, h); break; case 1: Iter<T, true>::laws(c, h); break; case 2: Iter<T, false>::visit(c, h); break; default: Iter<T, true>::visit(c, h); }
            // change the state in between
            switch (c.pick(5)) { case 0: h.o.reset(); h.engaged = false; break; case 1: { if constexpr (std::is_reference_v<T>) { h.o = h.target; } else { h.s = c.interesting(); h.o.emplace(Ty<bare<T>>::make(h.s)); } h.engaged = h.o.has_value(); break; }
            case 2: { if constexpr (std::is_move_constructible_v<opt::option<T>>) { auto t = h.o.take(); REQUIRE(t.has_value() == h.engaged); h.engaged = false; } break; } default: break; }
        }
    }
    REQUIRE(reg::live() == 0);
}
#define IT(...) REG("iterate " #__VA_ARGS__, (&iteration<__VA_ARGS__>));
