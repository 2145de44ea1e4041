// Checked element access: present elements are referred to, absent ones give an empty option.
#pragma once
#include "p09_common.hpp"
#include <deque>

inline u64 index_near(Case& c, std::size_t n) {
    switch (c.pick(5)) { case 0: case 1: return n ? c.pick(std::uint32_t(n)) : 0; case 2: return u64(n) + c.pick(3); case 3: return u64(n) - 1 - c.pick(3); default: return c.interesting(); }
}
template<class C, class = void> struct MakeSeq { static C make(u64 s, std::size_t n) { C r; using V = typename C::value_type; for (std::size_t i = 0; i < n; ++i) r.push_back(Ty<V>::make(mix(s + i))); return r; } };
template<class V, std::size_t N> struct MakeSeq<std::array<V, N>> { static std::array<V, N> make(u64 s, std::size_t) { std::array<V, N> r{}; for (std::size_t i = 0; i < N; ++i) r[i] = Ty<V>::make(mix(s + i)); return r; } };
template<> struct MakeSeq<std::string_view> { static std::string_view make(u64 s, std::size_t n) { return std::string_view(g_text + s % 30, n); } };
// a spy: every access is recorded, out of range accesses fail the case
template<int Ret> struct Spy { // 0 references in the category of the container, 1 by value, 2 always const&
    using value_type = int;
    int d[24]; std::size_t n; mutable int sizes = 0, elems = 0;
    explicit Spy(std::size_t k, u64 s) : n(k) { for (std::size_t i = 0; i < 24; ++i) d[i] = int(mix(s + i)); }
    std::size_t size() const noexcept { ++sizes; return n; }
    const int& look(std::size_t i) const { ++elems; REQUIRE_MSG(i < n, "element %zu of a container of %zu elements was accessed", i, n); return d[i]; }
    int& mut(std::size_t i) const { return const_cast<int&>(look(i)); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int& operator[](std::size_t i) & { return mut(i); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int& operator[](std::size_t i) const& { return look(i); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int&& operator[](std::size_t i) && { return static_cast<int&&>(mut(i)); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int&& operator[](std::size_t i) const&& { return static_cast<const int&&>(look(i)); }
    template<int R = Ret, std::enable_if_t<R == 1, int> = 0> int operator[](std::size_t i) const { return look(i); }
    template<int R = Ret, std::enable_if_t<R == 2, int> = 0> const int& operator[](std::size_t i) const { return look(i); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int& front() & { return mut(0); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int& front() const& { return look(0); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int&& front() && { return static_cast<int&&>(mut(0)); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int&& front() const&& { return static_cast<const int&&>(look(0)); }
    template<int R = Ret, std::enable_if_t<R == 1, int> = 0> int front() const { return look(0); }
    template<int R = Ret, std::enable_if_t<R == 2, int> = 0> const int& front() const { return look(0); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int& back() & { return mut(n - 1); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int& back() const& { return look(n - 1); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> int&& back() && { return static_cast<int&&>(mut(n - 1)); }
    template<int R = Ret, std::enable_if_t<R == 0, int> = 0> const int&& back() const&& { return static_cast<const int&&>(look(n - 1)); }
    template<int R = Ret, std::enable_if_t<R == 1, int> = 0> int back() const { return look(n - 1); }
    template<int R = Ret, std::enable_if_t<R == 2, int> = 0> const int& back() const { return look(n - 1); }
    friend bool operator==(const Spy& a, const Spy& b) { return a.n == b.n && std::memcmp(a.d, b.d, sizeof a.d) == 0; }
};
template<int R> struct MakeSeq<Spy<R>> { static Spy<R> make(u64 s, std::size_t n) { return Spy<R>(n % 24, s); } };
template<class C, class = void> inline constexpr bool has_index = false;
template<class C> inline constexpr bool has_index<C, std::void_t<decltype(std::declval<C&>()[0])>> = true;
template<class C, class = void> inline constexpr bool has_ends = false;
template<class C> inline constexpr bool has_ends<C, std::void_t<decltype(std::declval<C&>().front())>> = true;
template<class C> inline constexpr bool proxy = !std::is_reference_v<decltype(std::declval<C&>().front())>;
template<> inline constexpr bool proxy<std::vector<bool>> = true;

template<class C, int Cat, class R> void seq_result(Case& c, const char* op, C& cont, R& r, std::size_t i, bool present, const C& before) {
    using V = typename C::value_type; using T = typename R::value_type;
    pbt::opaque(r);
    REQUIRE_MSG(r.has_value() == present, "%s: element %zu of %zu: the result is %d", op, i, cont.size(), int(r.has_value()));
    REQUIRE_MSG(cont == before, "%s changed the container", op);
    if (present) {
        auto it = [&]() -> decltype(auto) { if constexpr (has_index<C>) return (cont[i]); else return *std::next(cont.begin(), std::ptrdiff_t(i)); };
        if constexpr (std::is_reference_v<T>) {
            static_assert(std::is_same_v<bare<T>, V>);
            REQUIRE_MSG(std::addressof(r.get()) == std::addressof(it()), "%s refers to another element", op);
            if constexpr (std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>) { u64 w = c.interesting(); r.get() = Ty<V>::make(w); REQUIRE_MSG(Ty<V>::same(it(), w), "%s: writing through the result does not reach the element", op); }
        } else { V got = static_cast<V>(r.get()), want = static_cast<V>(it()); REQUIRE_MSG(got == want, "%s holds another value than the element", op); }
    }
}
template<class C, int Cat> void seq_cat(Case& c, C& cont, int op, std::size_t i) {
    const C before = cont; std::size_t n = cont.size();
    if constexpr (has_index<C>) if (op == 0) {
        using E = decltype(as<Cat>(cont)[i]); // what the container gives
        auto r = opt::at(as<Cat>(cont), i);
        static_assert(noexcept(opt::at(as<Cat>(cont), i)));
        if constexpr (!proxy<C>) static_assert(std::is_same_v<decltype(r), opt::option<std::conditional_t<(Cat < 2), std::remove_reference_t<E>&, std::remove_reference_t<E>&&>>>, "at gives a reference in the container's category"); else static_assert(std::is_same_v<decltype(r), opt::option<E>> || std::is_same_v<C, std::vector<bool>>);
        seq_result<C, Cat>(c, "at", cont, r, i, i < n, before);
    }
    if constexpr (has_ends<C>) {
        if (op == 1) { auto r = opt::at_front(as<Cat>(cont)); static_assert(noexcept(opt::at_front(as<Cat>(cont)))); seq_result<C, Cat>(c, "at_front", cont, r, 0, n > 0, before); }
        if (op == 2) { auto r = opt::at_back(as<Cat>(cont)); static_assert(noexcept(opt::at_back(as<Cat>(cont)))); seq_result<C, Cat>(c, "at_back", cont, r, n ? n - 1 : 0, n > 0, before); }
        if constexpr (!proxy<C>) { using E = std::remove_reference_t<decltype(as<Cat>(cont).front())>; using W = opt::option<std::conditional_t<(Cat < 2), E&, E&&>>; static_assert(std::is_same_v<decltype(opt::at_front(as<Cat>(cont))), W> && std::is_same_v<decltype(opt::at_back(as<Cat>(cont))), W>); }
    }
}
template<class C> void seq(Case& c) {
    u64 s = c.interesting(); std::size_t n = c.pick(3) == 0 ? c.pick(3) : c.pick(24);
    C cont = MakeSeq<C>::make(s, n); std::size_t i = std::size_t(index_near(c, cont.size())); int op = int(c.pick(3)), cat = int(c.pick(4));
    c.log("sequence of %zu, index %zu, op %d, %s", cont.size(), i, op, cat_names[cat]);
    switch (cat) { case 0: seq_cat<C, 0>(c, cont, op, i); break; case 1: seq_cat<C, 1>(c, cont, op, i); break; case 2: seq_cat<C, 2>(c, cont, op, i); break; default: seq_cat<C, 3>(c, cont, op, i); }
    c.nontrivial(cont.size() > 0);
}
// ---------------------------------------------------------------- associative containers
template<class C, class = void> inline constexpr bool is_map = false;
template<class C> inline constexpr bool is_map<C, std::void_t<typename C::mapped_type>> = true;
template<class C> void assoc(Case& c) {
    using K = typename C::key_type; C cont; int n = int(c.pick(20)); std::vector<u64> specs;
    for (int i = 0; i < n; ++i) { u64 s = c.pick(2) ? c.pick(12) : c.interesting(); specs.push_back(s); if constexpr (is_map<C>) cont.emplace(Ty<K>::make(s), Ty<typename C::mapped_type>::make(mix(s))); else cont.emplace(Ty<K>::make(s)); }
    const C before = cont; u64 s = n && c.coin() ? specs[c.pick(std::uint32_t(n))] : c.pick(2) ? c.pick(14) : c.interesting(); K key = Ty<K>::make(s); int form = int(c.pick(4));
    bool present = false; for (const auto& e : cont) { if constexpr (is_map<C>) present = present || e.first == key; else present = present || e == key; }
    c.log("associative container of %zu, key spec %llu %s, form %d", cont.size(), (unsigned long long)s, present ? "present" : "absent", form);
    auto check = [&](auto r) {
        using T = typename decltype(r)::value_type; static_assert(std::is_lvalue_reference_v<T>); pbt::opaque(r);
        REQUIRE_MSG(r.has_value() == present, "lookup: the key is %s but the result is %d", present ? "present" : "absent", int(r.has_value()));
        REQUIRE_MSG(cont == before, "lookup changed the container");
        if (present) {
            bool in = false; for (auto& e : cont) { if constexpr (is_map<C>) in = in || (std::addressof(e.second) == std::addressof(r.get()) && e.first == key); else in = in || (std::addressof(e) == std::addressof(r.get()) && e == key); }
            REQUIRE_MSG(in, "lookup refers to something that is not the key's element");
            if constexpr (is_map<C>) if constexpr (!std::is_const_v<std::remove_reference_t<T>>) { u64 w = c.interesting(); r.get() = Ty<typename C::mapped_type>::make(w); bool hit = false; for (auto& e : cont) hit = hit || (e.first == key && Ty<typename C::mapped_type>::same(e.second, w)); REQUIRE_MSG(hit, "writing through lookup does not reach the element"); }
        }
    };
    switch (form) {
    case 0: { auto r = opt::lookup(cont, key); if constexpr (is_map<C>) static_assert(std::is_same_v<decltype(r), opt::option<typename C::mapped_type&>>); else static_assert(std::is_same_v<decltype(r), opt::option<const K&>>); check(r); REQUIRE(Ty<K>::same(key, s)); break; }
    case 1: { auto r = opt::lookup(static_cast<const C&>(cont), static_cast<const K&>(key)); if constexpr (is_map<C>) static_assert(std::is_same_v<decltype(r), opt::option<const typename C::mapped_type&>>); check(r); break; }
    case 2: check(opt::lookup(cont, K(key))); break;
    default: if constexpr (std::is_same_v<typename std::conditional_t<is_map<C>, C, C>::key_type, std::string>) { if constexpr (std::is_same_v<C, std::map<std::string, int, std::less<>>>) check(opt::lookup(cont, std::string_view(key))); else check(opt::lookup(cont, key)); } else check(opt::lookup(cont, key)); }
    c.nontrivial(n > 0);
}
// ---------------------------------------------------------------- variants
template<std::size_t I, int Cat, class... Ts> void variant_one(Case& c, std::variant<Ts...>& v, u64 s, bool by_type) {
    using V = std::variant<Ts...>; using E = std::variant_alternative_t<I, V>; constexpr bool unique = ((std::is_same_v<E, Ts> ? 1 : 0) + ... + 0) == 1;
    using W = std::conditional_t<Cat == 0, E&, std::conditional_t<Cat == 1, const E&, std::conditional_t<Cat == 2, E&&, const E&&>>>;
    bool present = v.index() == I;
    auto check = [&](auto r, const char* op) {
        static_assert(std::is_same_v<decltype(r), opt::option<W>>, "get gives a reference in the variant's category"); pbt::opaque(r);
        REQUIRE_MSG(r.has_value() == present, "%s<%zu> of a variant holding alternative %zu is %d", op, I, v.index(), int(r.has_value()));
        if (present) { REQUIRE_MSG(std::addressof(r.get()) == std::get_if<I>(&v), "%s refers to another object than the alternative", op); REQUIRE(Ty<E>::same(*std::get_if<I>(&v), s)); if constexpr (Cat == 0) { r.get() = Ty<E>::make(mix(s)); REQUIRE(v.index() == I && Ty<E>::same(*std::get_if<I>(&v), mix(s))); v.template emplace<I>(Ty<E>::make(s)); } }
    };
    if constexpr (unique) if (by_type) { check(opt::get<E>(as<Cat>(v)), "get by type"); static_assert(noexcept(opt::get<E>(as<Cat>(v)))); return; }
    check(opt::get<I>(as<Cat>(v)), "get by index"); static_assert(noexcept(opt::get<I>(as<Cat>(v)))); (void)c;
}
struct Bomb { u64 v = 0; Bomb() = default; Bomb(const Bomb&) = default; Bomb& operator=(const Bomb&) = default; explicit Bomb(int) { throw 1; } };
template<> struct Ty<Bomb> { static Bomb make(u64 s) { Bomb b; b.v = s; return b; } static bool same(const Bomb& b, u64 s) { return b.v == s; } static const char* name() { return "Bomb"; } };
template<class... Ts, std::size_t... I> void variants_impl(Case& c, std::index_sequence<I...>) {
    using V = std::variant<Ts...>; u64 s = c.interesting(); std::size_t hold = c.pick(sizeof...(Ts)), ask = c.pick(sizeof...(Ts)); if (c.coin()) ask = hold; int cat = int(c.pick(4)); bool by_type = c.coin();
    V v; bool valueless = false;
    ((I == hold ? (void)v.template emplace<I>(Ty<Ts>::make(s)) : (void)0), ...);
    if constexpr ((std::is_same_v<Ts, Bomb> || ...)) if (c.chance(1, 4)) { try { v.template emplace<Bomb>(1); } catch (int) { valueless = v.valueless_by_exception(); } }
    c.log("variant holding %zu%s, asked for %zu %s %s", hold, valueless ? " (valueless)" : "", ask, by_type ? "by type" : "by index", cat_names[cat]);
    auto run = [&](auto k) { constexpr int K = decltype(k)::value; ((I == ask ? variant_one<I, K, Ts...>(c, v, s, by_type) : (void)0), ...); };
    switch (cat) { case 0: run(std::integral_constant<int, 0>{}); break; case 1: run(std::integral_constant<int, 1>{}); break; case 2: run(std::integral_constant<int, 2>{}); break; default: run(std::integral_constant<int, 3>{}); }
    c.nontrivial(hold == ask);
}
template<class... Ts> void variants(Case& c) { reg::reset(); variants_impl<Ts...>(c, std::index_sequence_for<Ts...>{}); }
// ---------------------------------------------------------------- options of tuple-likes
template<class T, class B> inline constexpr int type_count = 0;
template<class T, class A, class B> inline constexpr int type_count<T, std::pair<A, B>> = std::is_same_v<T, A> + std::is_same_v<T, B>;
template<class T, class... Ts> inline constexpr int type_count<T, std::tuple<Ts...>> = (0 + ... + std::is_same_v<T, Ts>);
template<class> inline constexpr bool pair14 = false;
template<class A, class B> inline constexpr bool pair14<std::pair<A, B>> = true;
template<class B> u64 elem_spec14(u64 s, std::size_t i) { return !i ? s : pair14<B> ? mix(s) : mix(s + i); }
template<class P, int Cat, std::size_t I> void tuple_one(Held<P>& h, bool by_type) {
    using B = bare<P>; using E = std::tuple_element_t<I, B>;
    using X = std::conditional_t<std::is_const_v<std::remove_reference_t<P>> || (Cat % 2 == 1 && !std::is_reference_v<P>), const E, E>;
    using G = decltype(std::get<I>(as<Cat>(h.o).get())); // element of the contained value as the option gives it
    auto check = [&](auto r, const char* op) {
        using T = typename decltype(r)::value_type; static_assert(std::is_same_v<std::remove_reference_t<T>, std::remove_reference_t<G>> && std::is_same_v<std::remove_reference_t<T>, X>);
        static_assert(std::is_same_v<T, std::conditional_t<(Cat < 2), X&, X&&>>, "get gives a reference in the option's category"); pbt::opaque(r);
        REQUIRE_MSG(r.has_value() == h.engaged, "%s of element %zu of an option that is %d is %d", op, I, int(h.engaged), int(r.has_value()));
        if (h.engaged) { REQUIRE_MSG(std::addressof(r.get()) == std::addressof(std::get<I>(*h.address())), "%s refers to another element", op); REQUIRE(Ty<std::remove_const_t<E>>::same(r.get(), elem_spec14<B>(h.s, I))); }
    };
    if constexpr (type_count<E, B> == 1) if (by_type) { check(opt::get<E>(as<Cat>(h.o)), "get by type"); static_assert(noexcept(opt::get<E>(as<Cat>(h.o)))); return; }
    check(opt::get<I>(as<Cat>(h.o)), "get by index"); static_assert(noexcept(opt::get<I>(as<Cat>(h.o))));
}
template<class P, std::size_t... I> void tuples_impl(Case& c, std::index_sequence<I...>) {
    u64 s = c.interesting(); Held<P> h(c.chance(3, 4), s); std::size_t ask = c.pick(sizeof...(I)); int cat = int(c.pick(4)); bool by_type = c.coin();
    c.log("option<%s> full %d, element %zu %s %s", Ty<bare<P>>::name(), int(h.engaged), ask, by_type ? "by type" : "by index", cat_names[cat]);
    auto run = [&](auto k) { constexpr int K = decltype(k)::value; ((I == ask ? tuple_one<P, K, I>(h, by_type) : (void)0), ...); };
    long copies = reg::st().copies, moves = reg::st().moves;
    switch (cat) { case 0: run(std::integral_constant<int, 0>{}); break; case 1: run(std::integral_constant<int, 1>{}); break; case 2: run(std::integral_constant<int, 2>{}); break; default: run(std::integral_constant<int, 3>{}); }
    REQUIRE_MSG(reg::st().copies == copies && reg::st().moves == moves, "get copied or moved the elements"); h.unchanged("get"); c.nontrivial(h.engaged);
}
template<class P> void tuples(Case& c) { reg::reset(); tuples_impl<P>(c, std::make_index_sequence<std::tuple_size<bare<P>>::value>{}); REQUIRE(reg::live() == 0); }
