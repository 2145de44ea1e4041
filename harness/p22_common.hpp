// Wrappers that reserve values: a nest of options over a wrapper W of a plain type T, driven with a model in which the
// k-th option (0 is the innermost) is empty exactly in the k-th reserved state.
// D: T, W, n (reserved states), free(seed) a value outside the reserved states, same(a, b), raw: states can be written by
// put(T&, k) and read by state(const T&) (-1 when none).
#pragma once
#include "types.hpp"
#include "model.hpp"

namespace wrap {
template<class W, int K> struct Nest { using type = opt::option<typename Nest<W, K - 1>::type>; };
template<class W> struct Nest<W, 0> { using type = W; };
template<int Up, class N> auto& down(N& o) { if constexpr (Up == 0) return o; else return down<Up - 1>(o.get_unchecked()); }

template<class D, int K> struct Deep {
    using T = typename D::T; using W = typename D::W; using N = typename Nest<W, K>::type;
    static constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
    static constexpr int fit = K <= long(D::n) ? K : int(D::n);       // options that are represented by reserved states
    static constexpr int S = 3;
    struct Slot { int d = K - 1; bool known = true; u64 s = 0; int k = -1; };  // d: the empty option (-1: a value); k: the value is reserved state k, of use to nobody
    Case& c; Box<N>* b[S]; Slot m[S]; alignas(Box<N>) unsigned char mem[S][sizeof(Box<N>)]; bool some = false;
    explicit Deep(Case& cc) : c(cc) { static const unsigned char fills[] = {0, 0xff, 0x01, 0xa5}; for (int i = 0; i < S; ++i) b[i] = ::new (mem[i]) Box<N>(fills[c.pick(4)]); }
    ~Deep() { for (int i = 0; i < S; ++i) b[i]->~Box<N>(); }
    N& o(int i) { return **b[i]; }
    T val(const Slot& x) { T t = D::free(x.s); if constexpr (D::keeps) if (x.k >= 0) D::put(t, x.k); return t; }
    template<int J> void check_level(int i, const char* what) {
        auto& x = down<K - 1 - J>(o(i)); const Slot& w = m[i];
        REQUIRE_MSG(x.has_value() == (w.d != J), "%s: after %s: option %d of %d around it (from the inside) is %s", D::label(), what, J, K, w.d == J ? "full" : "empty");
        REQUIRE(bool(x) == (w.d != J) && (x == opt::none) == (w.d == J));
        if (w.d == J) {
            if constexpr (D::raw && J < fit) read_state<J>(i, what);
            return;
        }
        if constexpr (J > 0) check_level<J - 1>(i, what);
        else if (w.known) {
            W& r = x.get(); T t = copy(w); REQUIRE_MSG(D::same(r.m, t), "%s: after %s: a wrong value inside %d options", D::label(), what, K);
            const W& cr = r; T& p = r; const T& q = cr; REQUIRE(&p == &r.m && &q == &r.m); REQUIRE(&*x == &r && &x->m == &r.m);
        }
    }
    T copy(const Slot& w) { return val(w); }
    template<int J> void read_state(int i, const char* what) { const W& w = down<K>(o(i)); int s = D::state(w.m); REQUIRE_MSG(s == J, "%s: after %s: the empty option %d is in the state %d of the wrapped value", D::label(), what, J, s); }
    void check(const char* what) { for (int i = 0; i < S; ++i) { pbt::opaque(o(i)); check_level<K - 1>(i, what); } }
    // runs f<J> for the given level
    template<int J = K - 1, class F> void at(int j, F&& f) { if (j == J) f(std::integral_constant<int, J>{}); else if constexpr (J > 0) at<J - 1>(j, f); }
    W make(u64 s) { return W(D::free(s)); }
    void set(Slot& w, u64 s) { w = Slot{}; w.d = -1; w.s = s; }
    void step() {
        int i = int(c.pick(S)), j = int(c.pick(S)); u64 s = c.interesting(); N& x = o(i); Slot& w = m[i]; const char* what = "";
        // levels >= w.d can be reached
        int lo = w.d < 0 ? 0 : w.d, lev = lo + int(c.pick(K - lo));
        switch (c.pick(13)) {
        case 0: what = "reset of an option"; at(lev, [&](auto J) { down<K - 1 - decltype(J)::value>(x).reset(); }); w.d = lev; break;
        case 1: what = "assignment of none"; at(lev, [&](auto J) { down<K - 1 - decltype(J)::value>(x) = opt::none; }); w.d = lev; break;
        case 2: what = "construction from the wrapper"; x = N(make(s)); set(w, s); break;
        case 3: what = "emplace"; at(lev, [&](auto J) { auto& y = down<K - 1 - decltype(J)::value>(x); if constexpr (decltype(J)::value == 0) { y.emplace(make(s)); set(w, s); } else { y.emplace(); w.d = decltype(J)::value - 1; } }); break;
        case 4: what = "emplace of the plain value"; if (lo == 0) { down<K - 1>(x).emplace(D::free(s)); set(w, s); } break;
        case 5: what = "assignment of a plain value"; if (w.d < 0) { down<K>(x) = D::free(s); set(w, s); } else if (w.d == 0) { down<K - 1>(x) = D::free(s); set(w, s); } break;
        case 6: what = "assignment through the member"; if constexpr (std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>) if (w.d < 0) { down<K>(x).m = D::free(s); set(w, s); } break;
        case 7: what = "writing a reserved state into the value"; if constexpr (D::raw) if (w.d < 0) {
                int k = int(c.pick(std::uint32_t(!D::keeps ? fit : D::n < 12 ? D::n : 12))); W& y = down<K>(x); D::put(static_cast<T&>(y), k); if (k < fit) w.d = k; else w.k = k; some = true; } break;
        case 8: what = "writing a value over an empty state"; if constexpr (D::raw) if (w.d >= 0 && w.d < fit) {
                int was = w.d; at(was, [&](auto) { T t = D::free(s); std::memcpy(static_cast<void*>(&down<K>(x).m), static_cast<const void*>(&t), sizeof t); }); set(w, s); } break;
        case 9: what = "copy assignment"; if constexpr (copyable) { x = static_cast<const N&>(o(j)); w = m[j]; } break;
        case 10: what = "move assignment"; if (i != j) { x = static_cast<N&&>(o(j)); w = m[j]; o(j) = opt::none; m[j] = Slot{}; } break;
        case 11: what = "swap"; if (i != j) { if (c.coin()) x.swap(o(j)); else opt::swap(x, o(j)); Slot t = w; w = m[j]; m[j] = t; } break;
        default: what = "copy or move construction"; if constexpr (copyable) { N t(static_cast<const N&>(x)); x = opt::none; x = static_cast<N&&>(t); } else { N t(static_cast<N&&>(x)); x = opt::none; x = static_cast<N&&>(t); } break;
        }
        if (w.d >= 0 && w.d < K - 1) some = true;
        c.log("%s: slot %d: %d", what, i, w.d); check(what);
    }
};
template<class D, int K> void nested(Case& c) {
    using X = Deep<D, K>; using W = typename D::W; using T = typename D::T; using N = typename X::N;
    if (K <= long(D::n)) REQUIRE_MSG(sizeof(N) == sizeof(W), "%s: %d options around it take %zu bytes instead of %zu", D::label(), K, sizeof(N), sizeof(W)); else REQUIRE(sizeof(N) > sizeof(W));
    X x(c); x.check("construction"); int n = 2 + int(c.pick(16)); for (int i = 0; i < n; ++i) x.step(); c.nontrivial(x.some || (K == 1));
}
template<class T> int overload(const T&) { return 1; } template<class T> int overload(T&&) { return 2; }
template<class D> void plain(Case& c) {
    using T = typename D::T; using W = typename D::W; using O = opt::option<W>; u64 s = c.interesting(), s2 = c.interesting();
    REQUIRE(sizeof(W) == sizeof(T) && alignof(W) == alignof(T)); REQUIRE(long(opt::option_traits<W>::max_level) == long(D::n));
    REQUIRE(std::is_trivially_copyable_v<W> == std::is_trivially_copyable_v<T>); REQUIRE(std::is_copy_constructible_v<W> == std::is_copy_constructible_v<T> && std::is_move_constructible_v<W> == std::is_move_constructible_v<T> && std::is_trivially_destructible_v<W> == std::is_trivially_destructible_v<T>);
    REQUIRE(std::is_default_constructible_v<W> == std::is_default_constructible_v<T>); REQUIRE(std::is_convertible_v<T, W> && std::is_convertible_v<W&, T&> && std::is_convertible_v<const W&, const T&> && std::is_convertible_v<W, T&&> && !std::is_convertible_v<const W&, T&> && !std::is_convertible_v<W&, T&&>);
    auto val = [&](u64 x, int k) { T t = D::free(x); if constexpr (D::keeps) { if (k >= 0) D::put(t, k); } else (void)k; return t; };
    int k1 = -1, k2 = -1; if (D::keeps && c.chance(1, 3)) k1 = int(c.pick(std::uint32_t(D::n < 12 ? D::n : 12))); if (D::keeps && c.chance(1, 3)) k2 = int(c.pick(std::uint32_t(D::n < 12 ? D::n : 12)));
    const char* l = D::label(); W w(val(s, k1)); REQUIRE_MSG(D::same(w.m, val(s, k1)), "%s: a constructed wrapper has a wrong value", l);
    T& r = w; const W& cw = w; const T& cr = cw; REQUIRE(&r == &w.m && &cr == &w.m); T&& rr = static_cast<W&&>(w); REQUIRE(&rr == &w.m); const T&& crr = static_cast<const W&&>(w); REQUIRE(&crr == &w.m);
    r = val(s2, k2); REQUIRE(D::same(w.m, val(s2, k2)) && D::same(cr, val(s2, k2))); w = val(s, k1); REQUIRE_MSG(D::same(w.m, val(s, k1)), "%s: assignment of a plain value", l); { W& res = (w = val(s2, k2)); REQUIRE(&res == &w); }
    W moved = static_cast<W&&>(w); REQUIRE_MSG(D::same(moved.m, val(s2, k2)), "%s: a moved wrapper has a wrong value", l); w = val(s, k1); W implicit = val(s, k1); REQUIRE(D::same(implicit.m, val(s, k1))); moved = static_cast<W&&>(implicit); REQUIRE(D::same(moved.m, val(s, k1)));
    if constexpr (std::is_copy_constructible_v<T>) {
        const T t = val(s2, k2); W a(t), b = t; W d(a); T back = a; REQUIRE(D::same(a.m, t) && D::same(b.m, t) && D::same(d.m, t) && D::same(back, t) && D::same(t, val(s2, k2)));
        if constexpr (std::is_copy_assignable_v<T>) { W e(val(s, k1)); e = t; REQUIRE(D::same(e.m, t)); W f(val(s, k1)); f = static_cast<const W&>(e); REQUIRE(D::same(f.m, t) && D::same(e.m, t)); }
    }
    if constexpr (std::is_default_constructible_v<T>) { W z{}; (void)z; }
    if constexpr (std::is_arithmetic_v<T>) { T t = val(s, k1), u = val(s2, k2); W a(t), b(u); REQUIRE((a == t) == (t == t) && (a == u) == (t == u) && (a < u) == (t < u) && (t < b) == (t < u) && bool(a) == bool(t)); W z{}; REQUIRE(z.m == T{}); }
    // the option: convertible from plain values
    O o(D::free(s)); REQUIRE_MSG(o.has_value() && D::same(o->m, D::free(s)), "%s: option constructed from a plain value", l); o = D::free(s2); REQUIRE(o.has_value() && D::same((*o).m, D::free(s2))); O p; REQUIRE(!p.has_value()); p = D::free(s); REQUIRE(p.has_value() && D::same(p->m, D::free(s))); p.reset(); p.emplace(D::free(s2)); REQUIRE(p.has_value() && D::same(p->m, D::free(s2)));
    T& inside = *p; REQUIRE(&inside == &p->m); auto len = o.map([](const T& y) { return &y; }); REQUIRE(len.has_value() && *len == &o->m); p = opt::none; REQUIRE(!p.has_value()); { T y = static_cast<O&&>(p).value_or(W(D::free(s))); REQUIRE(D::same(y, D::free(s))); T y2 = static_cast<O&&>(o).value_or(W(D::free(s))); REQUIRE(D::same(y2, D::free(s2))); }
    c.nontrivial();
}
}
