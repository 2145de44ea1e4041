// Callback-taking operations against a table: which callable runs, with what, and what comes back.
#pragma once
#include "types.hpp"

// options in each of the four value categories
template<int Cat, class O> decltype(auto) as(O& o) noexcept {
    if constexpr (Cat == 0) return static_cast<O&>(o);
    else if constexpr (Cat == 1) return static_cast<const O&>(o);
    else if constexpr (Cat == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
inline const char* const cat_names[] = {"&", "const&", "&&", "const&&"};
// type of the contained value as seen through an option in the given category
template<class T, int Cat> using elem_t = std::conditional_t<Cat == 0, T&, std::conditional_t<Cat == 1, const T&, std::conditional_t<Cat == 2, T&&, const T&&>>>;
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// an option together with what it holds (or refers to) and how to check it
template<class T> struct Held {
    using V = bare<T>;
    bool engaged; u64 s;
    std::conditional_t<std::is_reference_v<T>, V, char> target;
    opt::option<T> o;
    static constexpr bool is_ref = std::is_reference_v<T>;
    template<class Q = T> static auto init(u64 s) { if constexpr (std::is_reference_v<Q>) return Ty<V>::make(s); else return char(0); }
    Held(bool e, u64 spec) : engaged(e), s(spec), target(init(spec)) {
        if (e) { if constexpr (is_ref) o = target; else o.emplace(Ty<V>::make(spec)); }
    }
    const V* address() const { if constexpr (is_ref) return &target; else return std::addressof(const_cast<opt::option<T>&>(o).get()); }
    void unchanged(const char* op) {
        pbt::opaque(o);
        REQUIRE_MSG(o.has_value() == engaged, "%s on option<%s>: the source changed from %d to %d", op, Ty<V>::name(), int(engaged), int(o.has_value()));
        if (engaged) {
            REQUIRE_MSG(Ty<V>::same(o.get(), s), "%s on option<%s>: the source's value changed", op, Ty<V>::name());
            REQUIRE_MSG(std::addressof(const_cast<const opt::option<T>&>(o).get()) == address(), "%s: the source refers to another object", op);
        }
    }
    void engaged_only(const char* op) { pbt::opaque(o); REQUIRE_MSG(o.has_value() == engaged, "%s on option<%s>: the source changed from %d to %d", op, Ty<V>::name(), int(engaged), int(o.has_value())); }
};

// records how it is called
template<class Expect, class V> struct Probe {
    const V* where; u64 s; int* calls;
    template<class X> void see(X&& x) const {
        static_assert(std::is_same_v<X&&, Expect>, "the callable is given the contained value in the documented category");
        ++*calls;
        REQUIRE_MSG(std::addressof(x) == where, "the callable was given another object than the contained value");
        REQUIRE_MSG(Ty<V>::same(x, s), "the callable was given a wrong value");
    }
};

template<class T, int Cat> struct Ops {
    using V = bare<T>;
    using E = elem_t<T, Cat>;
    static constexpr bool copyable = std::is_copy_constructible_v<V>;
    static constexpr bool lvalue_like = Cat != 2;                    // results which need the value must copy it
    static constexpr bool can_result = std::is_reference_v<T> || (Cat == 2 && !std::is_const_v<T> ? std::is_move_constructible_v<V> : copyable);
    template<class R> static void expect_calls(int calls, bool want, const char* op) { (void)sizeof(R); REQUIRE_MSG(calls == int(want), "%s called its callable %d times, expected %d", op, calls, int(want)); }

    static void run(Case& c, int op, bool engaged, u64 s, u64 r, bool pred) {
        Held<T> h(engaged, s); auto& o = h.o;
        int calls = 0, dcalls = 0;
        const V* where = engaged ? h.address() : nullptr;
        Probe<E, V> p{where, s, &calls};
        auto once = [&](const char* n) { REQUIRE_MSG(calls == int(engaged), "%s on a%s option called its callable %d times", n, engaged ? " full" : "n empty", calls); };
        switch (op) {
        case 0: { // map, by value
            auto res = as<Cat>(o).map([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<std::string>::make(r); });
            static_assert(std::is_same_v<decltype(res), opt::option<std::string>>);
            once("map"); REQUIRE_MSG(res.has_value() == engaged, "map: result has_value()=%d for source %d", int(res.has_value()), int(engaged));
            if (engaged) REQUIRE_MSG(Ty<std::string>::same(res.get(), r), "map: the callable's result was not passed through"); h.unchanged("map"); break; }
        case 1: { // map to a reference
            int target = int(r);
            auto res = as<Cat>(o).map([&](auto&& x) -> int& { p.see(static_cast<decltype(x)>(x)); return target; });
            static_assert(std::is_same_v<decltype(res), opt::option<int&>>);
            once("map"); REQUIRE(res.has_value() == engaged); if (engaged) REQUIRE_MSG(&res.get() == &target, "map: the callable's reference result was not passed through"); h.unchanged("map"); break; }
        case 2: { // map to a type which can be neither copied nor moved: the result is constructed in place
            struct Pinned { u64 v; explicit Pinned(u64 x) : v(x) {} Pinned(const Pinned&) = delete; };
            auto res = as<Cat>(o).map([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Pinned(r); });
            once("map"); REQUIRE(res.has_value() == engaged); if (engaged) REQUIRE(res.get().v == r); h.unchanged("map"); break; }
        case 3: { // map to a sentinel-based and to a nested option
            auto res = as<Cat>(o).map([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<opt::option<bool>>::make(r); });
            static_assert(std::is_same_v<decltype(res), opt::option<opt::option<bool>>>);
            once("map"); REQUIRE(res.has_value() == engaged); if (engaged) REQUIRE_MSG(Ty<opt::option<bool>>::same(res.get(), r), "map: a callable's result of option type was changed"); h.unchanged("map"); break; }
        case 4: { // and_then
            auto res = as<Cat>(o).and_then([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<opt::option<std::string>>::make(r); });
            static_assert(std::is_same_v<decltype(res), opt::option<std::string>>);
            once("and_then"); if (engaged) REQUIRE_MSG((Ty<opt::option<std::string>>::same(res, r)), "and_then: the callable's result was not passed through"); else REQUIRE_MSG(!res.has_value(), "and_then on an empty option is not empty"); h.unchanged("and_then"); break; }
        case 5: { // and_then to a reference option and to an option of an option
            int target = 4; bool some = r & 1;
            auto res = as<Cat>(o).and_then([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return some ? opt::option<int&>(target) : opt::option<int&>(); });
            once("and_then"); REQUIRE(res.has_value() == (engaged && some)); if (engaged && some) REQUIRE(&res.get() == &target);
            using OO = opt::option<opt::option<float>>;
            auto res2 = as<Cat>(o).and_then([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<OO>::make(r); });
            REQUIRE(calls == 2 * int(engaged)); if (engaged) REQUIRE(Ty<OO>::same(res2, r)); else REQUIRE(!res2.has_value()); h.unchanged("and_then"); break; }
        case 6: { // map_or
            u64 d = mix(r);
            auto res = as<Cat>(o).map_or(Ty<std::string>::make(d), [&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<std::string>::make(r); });
            static_assert(std::is_same_v<decltype(res), std::string>);
            once("map_or"); REQUIRE_MSG(Ty<std::string>::same(res, engaged ? r : d), "map_or on a%s option returned a wrong value", engaged ? " full" : "n empty"); h.unchanged("map_or");
            const std::string def = Ty<std::string>::make(d);
            auto res2 = as<Cat>(o).map_or(def, [&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return "text"; });
            REQUIRE(calls == 2 * int(engaged)); REQUIRE(engaged ? res2 == "text" : Ty<std::string>::same(res2, d)); REQUIRE_MSG(Ty<std::string>::same(def, d), "map_or moved from an lvalue default"); h.unchanged("map_or"); break; }
        case 7: { // map_or_else
            auto res = as<Cat>(o).map_or_else([&] { ++dcalls; return Ty<std::string>::make(mix(r)); }, [&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return Ty<std::string>::make(r); });
            once("map_or_else"); REQUIRE_MSG(dcalls == int(!engaged), "map_or_else called the default function %d times", dcalls);
            REQUIRE_MSG(Ty<std::string>::same(res, engaged ? r : mix(r)), "map_or_else returned a wrong value"); h.unchanged("map_or_else"); break; }
        case 8: { // has_value_and
            bool res = as<Cat>(o).has_value_and([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return pred; });
            once("has_value_and"); REQUIRE_MSG(res == (engaged && pred), "has_value_and returned %d", int(res)); h.unchanged("has_value_and"); break; }
        case 9: { // inspect
            auto&& res = as<Cat>(o).inspect([&](auto&& x) { p.see(static_cast<decltype(x)>(x)); return r; });
            once("inspect"); REQUIRE_MSG(std::addressof(res) == std::addressof(o), "inspect did not return the option itself"); h.unchanged("inspect"); break; }
        case 10: { // filter
            if constexpr (can_result) {
                using F = std::conditional_t<std::is_reference_v<T>, T, std::conditional_t<Cat == 0 || Cat == 2, std::remove_reference_t<T>&, const std::remove_reference_t<T>&>>;
                Probe<F, V> q{where, s, &calls};
                auto res = as<Cat>(o).filter([&](auto&& x) { q.see(static_cast<decltype(x)>(x)); return pred; });
                static_assert(std::is_same_v<decltype(res), opt::option<T>>);
                once("filter"); REQUIRE_MSG(res.has_value() == (engaged && pred), "filter: has_value()=%d for source %d and predicate %d", int(res.has_value()), int(engaged), int(pred));
                if (engaged && pred) { REQUIRE_MSG(Ty<V>::same(res.get(), s), "filter returned a wrong value"); if constexpr (std::is_reference_v<T>) REQUIRE(std::addressof(res.get()) == where); }
                if (!pred || lvalue_like || std::is_reference_v<T>) h.unchanged("filter"); else h.engaged_only("filter");
            } break; }
        case 11: { // or_else
            if constexpr ((Cat == 1 || Cat == 2) && can_result) {
                Held<T> alt(pred, mix(r));
                auto res = as<Cat>(o).or_else([&]() { ++dcalls; if constexpr (Held<T>::is_ref) return alt.o; else if constexpr (copyable) return alt.o; else return static_cast<opt::option<T>&&>(alt.o); });
                static_assert(std::is_same_v<decltype(res), opt::option<T>>);
                REQUIRE_MSG(dcalls == int(!engaged), "or_else called its function %d times on a%s option", dcalls, engaged ? " full" : "n empty");
                bool want = engaged || pred; REQUIRE_MSG(res.has_value() == want, "or_else returned has_value()=%d", int(res.has_value()));
                if (want) REQUIRE_MSG(Ty<V>::same(res.get(), engaged ? s : mix(r)), "or_else returned a wrong value");
                if (Cat == 1 || std::is_reference_v<T>) h.unchanged("or_else"); else h.engaged_only("or_else");
            } break; }
        case 12: { // take_if, on a non-const lvalue; the predicate may modify the value first
            if constexpr (Cat == 0 && (std::is_move_constructible_v<V>) && !std::is_const_v<T>) {
                Probe<std::remove_reference_t<T>&, V> q{where, s, &calls};
                bool modify = (r & 1) && std::is_assignable_v<std::remove_reference_t<T>&, V>; u64 s2 = modify ? mix(r) : s;
                auto res = o.take_if([&](auto&& x) { q.see(static_cast<decltype(x)>(x)); if constexpr (std::is_assignable_v<std::remove_reference_t<T>&, V>) if (modify) x = Ty<V>::make(s2); return pred; });
                static_assert(std::is_same_v<decltype(res), opt::option<T>>);
                once("take_if");
                bool taken = engaged && pred;
                REQUIRE_MSG(res.has_value() == taken, "take_if: result has_value()=%d, expected %d", int(res.has_value()), int(taken));
                REQUIRE_MSG(o.has_value() == (engaged && !taken), "take_if: the source has_value()=%d afterwards", int(o.has_value()));
                if (taken) REQUIRE_MSG(Ty<V>::same(res.get(), s2), "take_if returned a wrong value");
                else if (engaged) REQUIRE_MSG(Ty<V>::same(o.get(), s2), "take_if changed a value it did not take");
            } break; }
        case 13: { // value_or
            if constexpr (!std::is_reference_v<T> && (Cat == 1 || Cat == 2) && can_result && std::is_move_constructible_v<V>) {
                u64 d = mix(r);
                V res = as<Cat>(o).value_or(Ty<V>::make(d));
                REQUIRE_MSG(Ty<V>::same(res, engaged ? s : d), "value_or on a%s option returned a wrong value", engaged ? " full" : "n empty");
                if (Cat == 1) h.unchanged("value_or"); else h.engaged_only("value_or");
            } break; }
        case 14: { // value_or_construct
            if constexpr (!std::is_reference_v<T> && (Cat == 1 || Cat == 2) && can_result && std::is_move_constructible_v<V>) {
                u64 d = mix(r); V arg = Ty<V>::make(d);
                V res = as<Cat>(o).value_or_construct(static_cast<V&&>(arg));
                REQUIRE_MSG(Ty<V>::same(res, engaged ? s : d), "value_or_construct on a%s option returned a wrong value", engaged ? " full" : "n empty");
                if (engaged) REQUIRE_MSG(Ty<V>::same(arg, d), "value_or_construct used its arguments though the option has a value");
                if (Cat == 1) h.unchanged("value_or_construct"); else h.engaged_only("value_or_construct");
            } break; }
        case 15: { // predicates and functions of every callable kind
            if constexpr (true) {
                struct RvalueOnly { Probe<E, V> p; bool r; bool operator()(E x) && { p.see(static_cast<E>(x)); return r; } bool operator()(E) & = delete; };
                struct ConstOnly { Probe<E, V> p; bool r; bool operator()(E x) const { p.see(static_cast<E>(x)); return r; } bool operator()(E) = delete; };
                struct MoveOnlyFn { Probe<E, V> p; bool r; std::unique_ptr<int> u; bool operator()(E x) { p.see(static_cast<E>(x)); return r; } };
                int n = 0;
                REQUIRE(as<Cat>(o).map(RvalueOnly{p, pred}).has_value() == engaged); n += engaged; REQUIRE(calls == n);
                const ConstOnly co{p, pred};
                auto m = as<Cat>(o).map(co); n += engaged; REQUIRE(calls == n); REQUIRE(m == (engaged ? opt::option<bool>(pred) : opt::option<bool>()));
                MoveOnlyFn mo{p, pred, nullptr};
                auto m2 = as<Cat>(o).map(mo); n += engaged; REQUIRE(calls == n); REQUIRE(m2.has_value() == engaged && (!engaged || *m2 == pred));
                REQUIRE(as<Cat>(o).has_value_and(RvalueOnly{p, pred}) == (engaged && pred)); n += engaged; REQUIRE(calls == n);
                REQUIRE(as<Cat>(o).map_or(!pred, RvalueOnly{p, pred}) == (engaged ? pred : !pred)); n += engaged; REQUIRE(calls == n);
                (void)as<Cat>(o).inspect(RvalueOnly{p, pred}); n += engaged; REQUIRE(calls == n);
                REQUIRE(as<Cat>(o).map_or_else([&] { return !pred; }, RvalueOnly{p, pred}) == (engaged ? pred : !pred)); n += engaged; REQUIRE(calls == n);
                std::function<bool(E)> fn = [&](E x) { p.see(static_cast<E>(x)); return pred; };
                REQUIRE(as<Cat>(o).has_value_and(fn) == (engaged && pred)); n += engaged; REQUIRE(calls == n);
                h.unchanged("callables");
            } break; }
        default: { // results that are convertible rather than equal to the declared result
            struct Flag { bool b; explicit operator bool() const { return b; } };
            struct IFlag { bool b; operator bool() const { return b; } };
            if constexpr (can_result) { auto res = as<Cat>(o).filter([&](auto&&) { return Flag{pred}; }); REQUIRE(res.has_value() == (engaged && pred)); if (engaged && pred) { REQUIRE(Ty<V>::same(res.get(), s)); } }
            Held<T> h2(engaged, s);
            REQUIRE(as<Cat>(h2.o).has_value_and([&](auto&&) { return IFlag{pred}; }) == (engaged && pred));
            REQUIRE(as<Cat>(h2.o).map_or(2.5, [&](auto&&) { return 3; }) == (engaged ? 3.0 : 2.5));
            h2.unchanged("has_value_and"); }
        }
        (void)c;
    }
};

template<class T> void callbacks(Case& c) {
    reg::reset();
    {
        int op = int(c.pick(17)), cat = int(c.pick(4)); bool engaged = c.chance(2, 3), pred = c.coin(); u64 s = c.interesting(), r = c.interesting();
        c.log("op %d on a %s option<%s>%s, value spec %llu, result spec %llu, predicate %d", op, engaged ? "full" : "empty", Ty<bare<T>>::name(), cat_names[cat], (unsigned long long)s, (unsigned long long)r, int(pred));
        switch (cat) { case 0: Ops<T, 0>::run(c, op, engaged, s, r, pred); break; case 1: Ops<T, 1>::run(c, op, engaged, s, r, pred); break; case 2: Ops<T, 2>::run(c, op, engaged, s, r, pred); break; default: Ops<T, 3>::run(c, op, engaged, s, r, pred); }
        c.nontrivial(engaged);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
#define CB(...) REG("callbacks " #__VA_ARGS__, (&callbacks<__VA_ARGS__>));
