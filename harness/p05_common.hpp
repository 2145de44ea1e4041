// Nested options against a model (how many levels are full, which value).
#pragma once
#include "types.hpp"

template<class T, int K> struct nest { using type = opt::option<typename nest<T, K - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, int K> using nest_t = typename nest<T, K>::type;

// State of nest<T, K>: d in [0, K]; d == K means a value with spec s. -1 in s: the value was moved from.
struct NS { int d = 0; u64 s = 0; bool moved = false; };

template<class T, int K> struct Nested {
    using V = std::remove_const_t<T>; using Y = Ty<V>;
    template<int J> using N = nest_t<T, J>;
    static constexpr bool cp = std::is_copy_constructible_v<V>, asg = std::is_move_assignable_v<T>, casg = cp && std::is_copy_assignable_v<T>;
    Case& c; Box<N<K>>* b[2]; alignas(Box<N<K>>) unsigned char mem[2][sizeof(Box<N<K>>)]; NS m[2]; int changes = 0;
    explicit Nested(Case& cc) : c(cc) { static const unsigned char f[] = {0, 0xff, 0x02, 0x5d}; for (int i = 0; i < 2; ++i) b[i] = ::new (mem[i]) Box<N<K>>(f[c.pick(4)]); }
    ~Nested() { for (auto* x : b) x->~Box<N<K>>(); }
    N<K>& o(int i) { return **b[i]; }

    // build nest<T, J> with d full levels by value
    template<int J> static N<J> make(int d, u64 s, int how) {
        if constexpr (J == 0) return Y::make(s);
        else {
            if (d == 0) { if (how & 1) return N<J>(); return N<J>(opt::none); }
            if constexpr (J == 1) { if (how & 2) { N<J> r; r.emplace(Y::make(s)); return r; } return N<J>(std::in_place, Y::make(s)); }
            else {
                if (how & 2) { N<J> r; r.emplace(make<J - 1>(d - 1, s, how >> 2)); return r; }
                if ((how & 4) && d == 1) { N<J> r; r.emplace(); return r; }
                return N<J>(std::in_place, make<J - 1>(d - 1, s, how >> 3));
            }
        }
    }
    template<int J, class O> static int full_levels(const O& x) { if constexpr (J == 0) return 0; else { pbt::opaque(x); if (!x.has_value()) { REQUIRE_MSG(x == opt::none && !bool(x) && x.ptr_or_null() == nullptr, "an empty level is not empty by every query"); return 0; } REQUIRE_MSG(x != opt::none && bool(x) && x.ptr_or_null() == std::addressof(*x), "a full level is not full by every query"); return 1 + full_levels<J - 1>(*x); } }
    template<int J, class O> static const V* value(const O& x) { if constexpr (J == 0) return std::addressof(x); else return x.has_value() ? value<J - 1>(*x) : nullptr; }
    static void verify(const N<K>& x, const NS& n, const char* what) {
        int d = full_levels<K>(x);
        REQUIRE_MSG(d == n.d, "%s nested %d times: after %s %d levels are full, expected %d", Y::name(), K, what, d, n.d);
        if (d == K && !n.moved) REQUIRE_MSG(Y::same(*value<K>(x), n.s), "%s nested %d times: after %s the value is wrong", Y::name(), K, what);
    }
    void check(const char* what) { for (int i = 0; i < 2; ++i) verify(o(i), m[i], what); }

    // run f on the option at nesting level j (j levels below the top), which must be reached
    template<int J, class O, class F> static void at(O& x, int j, F&& f) { if (j == 0) f(x, std::integral_constant<int, J>{}); else if constexpr (J > 1) at<J - 1>(*x, j - 1, f); }
    static NS moved(NS n) { if (n.d == K && !std::is_trivially_move_constructible_v<V>) n.moved = true; return n; }

    const char* step() {
        int i = int(c.pick(2)), k = 1 - i; u64 s = c.interesting(); int how = int(c.pick(64));
        int top = m[i].d < K ? m[i].d : K - 1;      // reachable nesting levels: 0 .. top
        int j = int(c.pick(std::uint32_t(top) + 1)); int op = int(c.pick(20)); int d = int(c.pick(std::uint32_t(K - j) + 1));
        c.log("option %d (%d full levels), at level %d: op %d, %d levels, spec %llx", i, m[i].d, j, op, d, (unsigned long long)s);
        ++changes;
        auto set = [&](int dd) { m[i].d = j + dd; m[i].s = s; m[i].moved = false; };
        switch (op) {
        case 0: at<K>(o(i), j, [&](auto& x, auto) { x.reset(); }); set(0); return "reset";
        case 1: at<K>(o(i), j, [&](auto& x, auto) { if constexpr (std::is_copy_assignable_v<std::remove_reference_t<decltype(x)>> || true) x = opt::none; }); set(0); return "assignment of none";
        case 2: case 3: if constexpr (asg) { at<K>(o(i), j, [&](auto& x, auto L) { x = make<decltype(L)::value>(d, s, how); }); set(d); } return "assignment of a nested option";
        case 4: if constexpr (casg) { at<K>(o(i), j, [&](auto& x, auto L) { const auto t = make<decltype(L)::value>(d, s, how); x = t; REQUIRE(full_levels<decltype(L)::value>(t) == d); }); set(d); } return "copy assignment of a nested option";
        case 5: case 6: at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; int dd = d > 0 ? d - 1 : int(0); auto& r = x.emplace(make<J - 1>(dd, s, how)); REQUIRE(std::addressof(r) == std::addressof(*x)); }); set(d > 0 ? d : (K - j == 1 ? 1 : 1)); return "emplace";
        case 7: at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; if constexpr (J > 1) { x.emplace(opt::none); } else x.emplace(Y::make(s)); }); set(1); return "emplacement of an empty inner option";
        case 8: { int was = m[i].d; at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; x.try_emplace(make<J - 1>(d > 0 ? d - 1 : 0, s, how)); }); if (was == j) set(d > 0 ? d : 1); return "try_emplace"; }
        case 9: { NS n = m[i]; at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; auto t = x.take(); REQUIRE_MSG(full_levels<J>(t) == n.d - j, "take() at level %d gave %d full levels, expected %d", j, full_levels<J>(t), n.d - j); if (n.d == K && !n.moved) REQUIRE(Y::same(*value<J>(t), n.s)); }); set(0); return "take"; }
        case 10: if constexpr (asg) { if (m[k].d >= j) { at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; at<K>(o(k), j, [&](auto& y, auto M) { if constexpr (J == decltype(M)::value) { if (how & 1) x.swap(y); else { using std::swap; swap(x, y); } } }); });
                if (m[k].d <= K && m[i].d >= j) { NS a = m[i], e = m[k]; if (j <= (e.d < K ? e.d : K - 1)) { m[i] = e; m[k] = a; } } } } return "swap of inner options";
        case 11: if constexpr (asg) { if (m[k].d >= j && j < K) { if (j <= (m[k].d < K ? m[k].d : K - 1)) { NS n = m[k]; at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; at<K>(o(k), j, [&](auto& y, auto M) { if constexpr (J == decltype(M)::value) x = static_cast<std::remove_reference_t<decltype(y)>&&>(y); }); }); m[i] = n; m[k] = moved(n); } } } return "move assignment of inner options";
        case 12: if constexpr (casg) { if (j <= (m[k].d < K ? m[k].d : K - 1)) { NS n = m[k]; at<K>(o(i), j, [&](auto& x, auto L) { constexpr int J = decltype(L)::value; at<K>(o(k), j, [&](auto& y, auto M) { if constexpr (J == decltype(M)::value) x = static_cast<const std::remove_reference_t<decltype(y)>&>(y); }); }); m[i] = n; } } return "copy assignment of inner options";
        case 13: if constexpr (cp) { N<K> t(o(i)); verify(t, m[i], "copy construction"); if (m[i].d < K || !m[i].moved) { if constexpr (casg) { o(k) = t; m[k] = m[i]; } } } return "copy construction";
        case 14: if constexpr (cp || !std::is_const_v<T>) { NS n = m[i]; N<K> t(static_cast<N<K>&&>(o(i))); verify(t, n, "move construction"); m[i] = moved(n); if constexpr (asg) { o(i) = static_cast<N<K>&&>(t); m[i] = n; } } return "move construction";
        case 15: if (m[i].d == K) { if constexpr (asg) { const_cast<V&>(*value<K>(o(i))) = Y::make(s); m[i].s = s; m[i].moved = false; } } return "modification of the value in place";
        case 16: if constexpr (std::is_move_constructible_v<N<K>> && (cp || !std::is_const_v<T>)) { std::vector<N<K>> v; NS n = m[i]; for (int q = 0; q <= K; ++q) v.push_back(make<K>(q, s, how)); for (int q = 0; q <= K; ++q) verify(v[std::size_t(q)], NS{q, s, false}, "growth of a vector"); (void)n; } return "vector of all states";
        case 17: if constexpr (K >= 2) { // remove one level of nesting
                if constexpr (cp) { int dd = m[i].d; auto f = opt::option<N<K>>(std::in_place, o(i)); verify(*f, m[i], "wrapping in one more level"); REQUIRE(f.has_value()); f->reset(); REQUIRE_MSG(f.has_value() && !f->has_value(), "clearing an inner level cleared the outer one"); f.reset(); REQUIRE(!f.has_value()); f.emplace(); REQUIRE(f.has_value() && !f->has_value()); (void)dd; } } return "one more level";
        case 18: if constexpr (cp) { // comparisons with every other state
                if constexpr (requires_eq()) for (int q = 0; q <= K; ++q) { N<K> t = make<K>(q, m[i].s, how); bool want = q == m[i].d; if (m[i].moved) break; REQUIRE_MSG((t == o(i)) == want && (t != o(i)) == !want, "%s nested %d times: state %d compared with state %d", Y::name(), K, q, m[i].d); } } return "comparison";
        default: { // observation only
                int n = m[i].d; int seen = 0; for (auto& x : o(i)) { ++seen; if constexpr (K > 1) REQUIRE(x.has_value() == (n > 1)); } REQUIRE(seen == (n > 0));
                auto mp = o(i).map([&](auto& x) -> bool { if constexpr (K > 1) return x.has_value(); else return true; }); REQUIRE(mp.has_value() == (n > 0)); if (n > 0) REQUIRE(*mp == (n > 1 || K == 1));
                } return "observation";
        }
    }
    static constexpr bool requires_eq() { return std::is_same_v<V, bool> || std::is_same_v<V, int*> || std::is_same_v<V, int> || std::is_same_v<V, std::string> || std::is_same_v<V, ES> || std::is_same_v<V, sent_int3>; }
};
template<class T, int K> void nested(Case& c) {
    reg::reset();
    { Nested<T, K> n(c); n.check("construction"); int steps = 2 + int(c.pick(20)); for (int i = 0; i < steps; ++i) { const char* w = n.step(); n.check(w); } c.nontrivial(n.changes >= 3); }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects outlive their options", reg::live());
}
#define NE(K, ...) REG("nested " #K " x " #__VA_ARGS__, (&nested<__VA_ARGS__, K>));
