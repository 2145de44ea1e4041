// zip, zip_with, unzip, flatten, option_cast against flag+value models, in every value category.
#pragma once
#include "p09_common.hpp"

template<class T> inline constexpr bool counted = false;
template<int G, bool Th> inline constexpr bool counted<TrackedN<G, Th>> = true;
template<class T> inline constexpr bool copy_ok = std::is_reference_v<T> || std::is_copy_constructible_v<bare<T>>;
// what "get()" of option<T> in category Cat gives
template<class T, int Cat> using got_t = decltype(as<Cat>(std::declval<opt::option<T>&>()).get());
template<class> inline constexpr bool pairlike = false;
template<class A, class B> inline constexpr bool pairlike<std::pair<A, B>> = true;
// spec of element i of a tuple-like made from spec s (see Ty)
template<class B> u64 elem_spec(u64 s, std::size_t i) { return !i ? s : pairlike<B> ? mix(s) : mix(s + i); }

template<class T, int Cat> void after(Held<T>& h, bool used, const char* op) {
    if (used && Cat == 2 && !std::is_reference_v<T>) h.engaged_only(op); else h.unchanged(op);
}
template<class T, class E> void same_elem(const char* op, const E& e, Held<T>& h) {
    if constexpr (std::is_reference_v<T>) REQUIRE_MSG(std::addressof(e) == &h.target, "%s: the result refers to another object", op);
    REQUIRE_MSG(Ty<bare<T>>::same(e, h.s), "%s: the result holds a wrong value for a contained %s", op, Ty<bare<T>>::name());
}
// ---------------------------------------------------------------- zip
template<int A, int B, int D, class T, class U, class V> void zip_cat(Case& c, Held<T>& x, Held<U>& y, Held<V>& z, int form) {
    bool e1 = x.engaged, e2 = x.engaged && y.engaged, e3 = e2 && z.engaged;
    (void)e1;
    auto& st = reg::st();
    if constexpr ((A == 2 || copy_ok<T>) && (B == 2 || copy_ok<U>) && (D == 2 || copy_ok<V>)) {
        long copies = st.copies;
        if (form == 0) {
            auto r = opt::zip(as<A>(x.o), as<B>(y.o), as<D>(z.o));
            static_assert(std::is_same_v<decltype(r), opt::option<std::tuple<T, U, V>>>, "zip returns option<tuple<value types>>");
            pbt::opaque(r); REQUIRE_MSG(r.has_value() == e3, "zip of (%d, %d, %d) is %d", int(x.engaged), int(y.engaged), int(z.engaged), int(r.has_value()));
            if (e3) { same_elem<T>("zip", std::get<0>(r.get()), x); same_elem<U>("zip", std::get<1>(r.get()), y); same_elem<V>("zip", std::get<2>(r.get()), z); }
            if constexpr (counted<T> && counted<U> && counted<V>) { long want = e3 ? (A != 2) + (B != 2) + (D != 2) : 0; REQUIRE_MSG(st.copies - copies == want, "zip made %ld copies instead of %ld", st.copies - copies, want); }
            after<T, A>(x, e3, "zip"); after<U, B>(y, e3, "zip"); after<V, D>(z, e3, "zip");
        } else if (form == 1) {
            auto r = opt::zip(as<A>(x.o), as<B>(y.o));
            static_assert(std::is_same_v<decltype(r), opt::option<std::tuple<T, U>>>);
            pbt::opaque(r); REQUIRE_MSG(r.has_value() == e2, "zip of (%d, %d) is %d", int(x.engaged), int(y.engaged), int(r.has_value()));
            if (e2) { same_elem<T>("zip", std::get<0>(r.get()), x); same_elem<U>("zip", std::get<1>(r.get()), y); }
            after<T, A>(x, e2, "zip"); after<U, B>(y, e2, "zip"); z.unchanged("zip");
            if (c.coin()) { // and back
                auto back = opt::unzip(static_cast<decltype(r)&&>(r));
                static_assert(std::is_same_v<decltype(back), std::tuple<opt::option<T>, opt::option<U>>>);
                auto& b0 = std::get<0>(back); auto& b1 = std::get<1>(back);
                pbt::opaque(back); REQUIRE_MSG(b0.has_value() == e2 && b1.has_value() == e2, "unzip of a zip of (%d, %d) gives (%d, %d)", int(x.engaged), int(y.engaged), int(b0.has_value()), int(b1.has_value()));
                if (e2) { same_elem<T>("unzip of zip", b0.get(), x); same_elem<U>("unzip of zip", b1.get(), y); }
            }
        } else if (form == 2) {
            auto r = opt::zip(as<D>(z.o));
            static_assert(std::is_same_v<decltype(r), opt::option<std::tuple<V>>>);
            pbt::opaque(r); REQUIRE(r.has_value() == z.engaged); if (z.engaged) same_elem<V>("zip of one", std::get<0>(r.get()), z);
            after<V, D>(z, z.engaged, "zip");
            REQUIRE_MSG(opt::zip().has_value(), "zip of nothing is empty");
        } else if constexpr (copy_ok<T> && copy_ok<U> && A != 2 && B != 2) { // the same option several times
            auto r = opt::zip(as<A>(x.o), as<B>(y.o), as<A>(x.o), as<B>(y.o));
            pbt::opaque(r); REQUIRE(r.has_value() == e2);
            if (e2) { same_elem<T>("zip", std::get<0>(r.get()), x); same_elem<T>("zip", std::get<2>(r.get()), x); same_elem<U>("zip", std::get<1>(r.get()), y); same_elem<U>("zip", std::get<3>(r.get()), y); }
            x.unchanged("zip"); y.unchanged("zip");
        }
    }
    // zip_with needs no copies
    if (form >= 4) {
        int calls = 0; u64 rs = c.interesting(); int target = 3;
        auto see = [&](auto&& a, auto&& b, auto&& d) {
            ++calls;
            static_assert(std::is_same_v<decltype(a), got_t<T, A>&&> && std::is_same_v<decltype(b), got_t<U, B>&&> && std::is_same_v<decltype(d), got_t<V, D>&&>, "zip_with passes the contained values in their category");
            REQUIRE_MSG(std::addressof(a) == x.address() && std::addressof(b) == y.address() && std::addressof(d) == z.address(), "zip_with passed other objects, or in another order");
        };
        switch (form) {
        case 4: { auto r = opt::zip_with([&](auto&& a, auto&& b, auto&& d) { see(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(d)>(d)); return Ty<std::string>::make(rs); }, as<A>(x.o), as<B>(y.o), as<D>(z.o));
            static_assert(std::is_same_v<decltype(r), opt::option<std::string>>); pbt::opaque(r); REQUIRE_MSG(r.has_value() == e3, "zip_with of (%d, %d, %d) is %d", int(x.engaged), int(y.engaged), int(z.engaged), int(r.has_value())); if (e3) REQUIRE_MSG(Ty<std::string>::same(r.get(), rs), "zip_with changed the callable's result"); break; }
        case 5: { auto r = opt::zip_with([&](auto&& a, auto&& b, auto&& d) -> int& { see(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(d)>(d)); return target; }, as<A>(x.o), as<B>(y.o), as<D>(z.o));
            static_assert(std::is_same_v<decltype(r), opt::option<int&>>); REQUIRE(r.has_value() == e3); if (e3) REQUIRE_MSG(&r.get() == &target, "zip_with changed the callable's reference result"); break; }
        case 6: { opt::zip_with([&](auto&& a, auto&& b, auto&& d) { see(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(d)>(d)); }, as<A>(x.o), as<B>(y.o), as<D>(z.o));
            auto nop = [](auto&&...) {}; static_assert(std::is_void_v<decltype(opt::zip_with(nop, x.o))>); break; }
        case 7: { auto r = opt::zip_with([&](auto&& a, auto&& b, auto&& d) { see(static_cast<decltype(a)>(a), static_cast<decltype(b)>(b), static_cast<decltype(d)>(d)); return Ty<opt::option<bool>>::make(rs); }, as<A>(x.o), as<B>(y.o), as<D>(z.o));
            static_assert(std::is_same_v<decltype(r), opt::option<opt::option<bool>>>, "a callable's option result is wrapped once more"); pbt::opaque(r); REQUIRE(r.has_value() == e3); if (e3) REQUIRE_MSG(Ty<opt::option<bool>>::same(r.get(), rs), "zip_with changed the callable's option result"); break; }
        default: { // a move-only callable called as an rvalue, and the constant of no options
            struct F { int* n; std::unique_ptr<int> p; long operator()(const V&) && { ++*n; return *p; } long operator()(const V&) & = delete; };
            int k = 0; auto r = opt::zip_with(F{&k, std::make_unique<int>(7)}, as<D>(z.o)); REQUIRE(r.has_value() == z.engaged && k == int(z.engaged)); if (z.engaged) REQUIRE(r.get() == 7); calls = int(e3);
            auto n = opt::zip_with([&] { return Ty<std::string>::make(rs); }); REQUIRE(n.has_value() && Ty<std::string>::same(*n, rs)); } }
        REQUIRE_MSG(calls == int(e3), "zip_with called its function %d times for (%d, %d, %d)", calls, int(x.engaged), int(y.engaged), int(z.engaged));
        x.unchanged("zip_with"); y.unchanged("zip_with"); z.unchanged("zip_with");
    }
}
template<class T, class U, class V> void zips(Case& c) {
    reg::reset();
    {
        int form = int(c.pick(9)), cat = int(c.pick(9)); u64 s = c.interesting(), t = c.interesting(), w = c.interesting();
        Held<T> x(c.chance(3, 4), s); Held<U> y(c.chance(3, 4), t); Held<V> z(c.chance(3, 4), w);
        c.log("zip form %d, categories %d: %d %d %d; specs %llu %llu %llu", form, cat, int(x.engaged), int(y.engaged), int(z.engaged), (unsigned long long)s, (unsigned long long)t, (unsigned long long)w);
        switch (cat) {
#define K(i) case i: zip_cat<i / 3, i % 3, (i / 3 + i % 3) % 3>(c, x, y, z, form); break;
        K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8)
#undef K
        }
        c.nontrivial(x.engaged || y.engaged || z.engaged);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
// ---------------------------------------------------------------- unzip of tuple-likes
template<class P, int Cat, std::size_t... I> void unzip_cat(Held<P>& h, std::index_sequence<I...>) {
    using B = bare<P>;
    constexpr bool can = Cat == 2 && !std::is_reference_v<P> && !std::is_const_v<P> ? (std::is_move_constructible_v<std::tuple_element_t<I, B>> && ...) : (std::is_copy_constructible_v<std::tuple_element_t<I, B>> && ...);
    if constexpr (can) {
        auto& st = reg::st(); long copies = st.copies;
        auto r = opt::unzip(as<Cat>(h.o)); pbt::opaque(r);
        long dc = st.copies - copies;
        static_assert((std::is_same_v<std::tuple_element_t<I, decltype(r)>, opt::option<std::tuple_element_t<I, B>>> && ...), "unzip gives one option per element");
        auto one = [&](const auto& o, auto idx) {
            using E = bare<std::tuple_element_t<decltype(idx)::value, B>>;
            REQUIRE_MSG(o.has_value() == h.engaged, "unzip: element %d is %d although the tuple is %d", int(idx), int(o.has_value()), int(h.engaged));
            if (h.engaged) REQUIRE_MSG(Ty<E>::same(o.get(), elem_spec<B>(h.s, decltype(idx)::value)), "unzip: element %d has a wrong value", int(idx));
        };
        (one(std::get<I>(r), std::integral_constant<std::size_t, I>{}), ...);
        if (Cat == 2 && !std::is_const_v<P> && !std::is_reference_v<P>) REQUIRE_MSG(dc == 0, "unzip of an rvalue made %ld copies", dc);
        after<P, Cat>(h, h.engaged, "unzip");
    }
}
template<class P> void unzips(Case& c) {
    reg::reset();
    {
        u64 s = c.interesting(); int cat = int(c.pick(3)); Held<P> h(c.chance(3, 4), s); c.log("unzip option<%s> %s, full %d, spec %llu", Ty<bare<P>>::name(), cat_names[cat], int(h.engaged), (unsigned long long)s);
        using S = std::make_index_sequence<std::tuple_size<bare<P>>::value>;
        switch (cat) { case 0: unzip_cat<P, 0>(h, S{}); break; case 1: unzip_cat<P, 1>(h, S{}); break; default: unzip_cat<P, 2>(h, S{}); }
        c.nontrivial(h.engaged);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
// ---------------------------------------------------------------- flatten
// a nest of N options around T; k of the N options are full (k == N: there is a value)
template<class T, int N> struct NestT { using type = opt::option<typename NestT<T, N - 1>::type>; };
template<class T> struct NestT<T, 1> { using type = opt::option<T>; };
template<int N, class O, class F> void build(O& o, int k, F&& put) {
    if (k == 0) { o = opt::none; return; }
    if constexpr (N == 1) put(o); else { o.emplace(); build<N - 1>(o.get(), k - 1, static_cast<F&&>(put)); }
}
template<int N, class O> int depth_of(const O& o) { if (!o.has_value()) return 0; if constexpr (N == 1) return 1; else return 1 + depth_of<N - 1>(o.get()); }
template<class T, int N> void flat(Case& c) {
    reg::reset();
    {
        using B = bare<T>; using O = typename NestT<T, N>::type;
        u64 s = c.interesting(); auto target = Ty<B>::make(s); int k = int(c.pick(N + 1)), cat = int(c.pick(3)); if (c.chance(1, 2)) k = N;
        static const unsigned char fill[] = {0, 0xff, 0xa5}; Box<O> box(fill[c.pick(3)]);
        O& o = *box; const B* where = nullptr;
        build<N>(o, k, [&](auto& in) { if constexpr (std::is_reference_v<T>) { in = target; where = &target; } else { in.emplace(Ty<B>::make(s)); where = std::addressof(in.get()); } });
        c.log("flatten %d levels of %s, %d full, %s", N, Ty<B>::name(), k, cat_names[cat]);
        REQUIRE(depth_of<N>(o) == k);
        auto check = [&](const auto& r, bool refers) {
            pbt::opaque(r); REQUIRE_MSG(r.has_value() == (k == N), "flatten of %d levels with %d full is %d", N, k, int(r.has_value()));
            if (k == N) { REQUIRE_MSG(Ty<B>::same(r.get(), s), "flatten gives a wrong value"); if (refers) REQUIRE_MSG(std::addressof(r.get()) == where, "flatten refers to another object than the innermost value"); }
        };
        long copies = reg::st().copies;
        if (cat == 0) { auto r = opt::flatten(o); static_assert(std::is_same_v<decltype(r), opt::option<T&>>); check(r, true); REQUIRE_MSG(reg::st().copies == copies, "flatten of an lvalue copied"); if (k == N) REQUIRE(Ty<B>::same(*where, s)); }
        else if (cat == 1) { const O& co = o; auto r = opt::flatten(co); static_assert(std::is_same_v<decltype(r), opt::option<std::conditional_t<std::is_reference_v<T>, T, const T>&>>); check(r, true); REQUIRE_MSG(reg::st().copies == copies, "flatten of a const lvalue copied"); }
        else { auto r = opt::flatten(static_cast<O&&>(o)); static_assert(std::is_same_v<decltype(r), opt::option<T>>); check(r, std::is_reference_v<T>); if constexpr (!std::is_const_v<T>) REQUIRE_MSG(reg::st().copies == copies, "flatten of an rvalue copied"); }
        REQUIRE_MSG(depth_of<N>(o) == k, "flatten changed its argument");
        c.nontrivial(k > 0);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
// ---------------------------------------------------------------- option_cast
template<class T> bool cast_same(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return bits_of(a) == bits_of(b) || (a != a && b != b); else return a == b; }
inline bool cast_same(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return bool(a) == bool(b) && (!a || *a == *b); }
template<class To, class From> void casts(Case& c) {
    reg::reset();
    {
        u64 s = c.interesting(); Held<From> h(c.chance(4, 5), s); int cat = int(c.pick(3));
        c.log("option_cast of %s, full %d, spec %llu, %s", Ty<bare<From>>::name(), int(h.engaged), (unsigned long long)s, cat_names[cat]);
        auto check = [&](const opt::option<To>& r) {
            pbt::opaque(r); REQUIRE_MSG(r.has_value() == h.engaged, "option_cast: result is %d for a source that is %d", int(r.has_value()), int(h.engaged));
            if (h.engaged) {
                if constexpr (std::is_reference_v<To>) { REQUIRE_MSG(std::addressof(r.get()) == std::addressof(static_cast<To>(h.target)), "option_cast refers to another object"); }
                else { auto v = Ty<bare<From>>::make(s); To want = To(static_cast<bare<From>&&>(v)); REQUIRE_MSG(cast_same(r.get(), want), "option_cast of %s gives another value than the cast", Ty<bare<From>>::name()); }
            }
        };
        auto& st = reg::st();
        if (cat == 2) { long copies = st.copies; auto r = opt::option_cast<To>(static_cast<opt::option<From>&&>(h.o)); if (!std::is_const_v<From>) REQUIRE_MSG(st.copies == copies, "option_cast of an rvalue copied"); static_assert(std::is_same_v<decltype(r), opt::option<To>>); check(r); after<From, 2>(h, h.engaged, "option_cast"); }
        else if constexpr (std::is_constructible_v<To, const bare<From>&> || std::is_reference_v<To>) {
            long copies = st.copies; auto r = cat ? opt::option_cast<To>(static_cast<const opt::option<From>&>(h.o)) : opt::option_cast<To>(h.o);
            REQUIRE_MSG(st.copies - copies <= (h.engaged ? 1 : 0), "option_cast of an lvalue made %ld copies", st.copies - copies); check(r); h.unchanged("option_cast");
        }
        c.nontrivial(h.engaged);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
