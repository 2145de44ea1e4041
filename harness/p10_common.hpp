// | & ^ |= against their truth tables, in every value category of both operands.
#pragma once
#include "p09_common.hpp"

template<class T> inline constexpr bool counted = false;
template<int G, bool Th> inline constexpr bool counted<TrackedN<G, Th>> = true;

template<class T> struct Sel { int from; }; // 0 none, 1 left, 2 right

// the operand is passed as an lvalue (const or not) or as an rvalue
template<class T, class U, int L, int R> struct Bin {
    using VT = bare<T>; using VU = bare<U>;
    static constexpr bool same_type = std::is_same_v<T, U>;
    static constexpr bool copyT = std::is_reference_v<T> || std::is_copy_constructible_v<VT>, copyU = std::is_reference_v<U> || std::is_copy_constructible_v<VU>;
    static constexpr bool okL = L == 2 || copyT, okR = R == 2 || copyU;

    template<class Res, class H> static void result(const char* op, const Res& res, bool want, H& src, u64 spec) {
        pbt::opaque(res);
        REQUIRE_MSG(res.has_value() == want, "%s: result has_value()=%d, the truth table says %d", op, int(res.has_value()), int(want));
        if (want) { REQUIRE_MSG(Ty<typename H::V>::same(res.get(), spec), "%s returned a wrong value", op); if constexpr (H::is_ref) REQUIRE_MSG(std::addressof(res.get()) == &src.target, "%s returned a reference to another object", op); }
    }
    static void run(Case& c, int op, bool le, bool re, u64 ls, u64 rs) {
        Held<T> l(le, ls); Held<U> r(re, rs);
        auto& st = reg::st(); long copies = st.copies, moves = st.moves;
        auto count = [&](const char* name, int sel) {
            if constexpr (counted<T> && counted<U>) {
                long dc = st.copies - copies; (void)moves;
                bool rv = sel == 1 ? L == 2 : sel == 2 ? R == 2 : true;
                REQUIRE_MSG(dc == (sel && !rv ? 1 : 0), "%s made %ld copies of the selected operand (selected: %d)", name, dc, sel);
            }
        };
        auto after = [&](const char* name, int sel) {
            if (sel == 1 && L == 2 && !std::is_reference_v<T>) l.engaged_only(name); else l.unchanged(name);
            if (sel == 2 && R == 2 && !std::is_reference_v<U>) r.engaged_only(name); else r.unchanged(name);
        };
        if constexpr (okL && okR) switch (op) {
        case 0: if constexpr (same_type) {
            int sel = le ? 1 : re ? 2 : 0;
            { auto res = as<L>(l.o) | as<R>(r.o); static_assert(std::is_same_v<decltype(res), opt::option<T>>); count("|", sel); if (sel == 2) result("|", res, true, r, rs); else result("|", res, sel == 1, l, ls); }
            after("|", sel); } break;
        case 1: if constexpr (same_type) {
            int sel = le && !re ? 1 : !le && re ? 2 : 0;
            { auto res = as<L>(l.o) ^ as<R>(r.o); static_assert(std::is_same_v<decltype(res), opt::option<T>>); count("^", sel); if (sel == 2) result("^", res, true, r, rs); else result("^", res, sel == 1, l, ls); }
            after("^", sel); } break;
        case 2: if constexpr (L != 2 || true) {
            int sel = le && re ? 2 : 0;
            { auto res = as<L>(l.o) & as<R>(r.o); static_assert(std::is_same_v<decltype(res), opt::option<U>>); count("&", sel); result("&", res, sel == 2, r, rs); }
            after("&", sel); } break;
        case 3: if constexpr (same_type && L == 0 && (R == 2 ? std::is_assignable_v<std::remove_reference_t<T>&, VT> || std::is_reference_v<T> : std::is_reference_v<T> || (std::is_copy_assignable_v<T>))) {
            auto& res = (l.o |= as<R>(r.o)); REQUIRE_MSG(&res == &l.o, "|= does not return its left operand"); int sel = le ? 1 : re ? 2 : 0;
            if (sel == 2) { count("|=", 2); result("|=", l.o, true, r, rs); if (R == 2 && !std::is_reference_v<U>) r.engaged_only("|="); else r.unchanged("|="); }
            else { l.unchanged("|="); r.unchanged("|="); } } break;
        default: break;
        }
        // against a plain value
        if (op == 4) {
            if constexpr ((L == 1 || L == 2) && okL && !std::is_reference_v<T> && std::is_move_constructible_v<VT> && !opt::is_option_v<VT>) {
                VT v = Ty<VT>::make(rs);
                if constexpr (std::is_copy_constructible_v<VT>) { if (c.coin()) { VT res = as<L>(l.o) | static_cast<const VT&>(v); REQUIRE_MSG(Ty<VT>::same(res, le ? ls : rs), "| with a value returned a wrong value"); REQUIRE_MSG(Ty<VT>::same(v, rs), "| modified its right operand"); if (le && L == 2) l.engaged_only("|"); else l.unchanged("|"); return; } }
                VT res = as<L>(l.o) | static_cast<VT&&>(v);
                REQUIRE_MSG(Ty<VT>::same(res, le ? ls : rs), "| with a value returned a wrong value");
                if (le) REQUIRE_MSG(Ty<VT>::same(v, rs), "| used its right operand though the left one has a value");
                if (le && L == 2) l.engaged_only("|"); else l.unchanged("|");
            }
            if constexpr (std::is_reference_v<T>) { auto t = Ty<VT>::make(rs); std::remove_reference_t<T>& alt = t; T res = as<L>(l.o) | alt; REQUIRE_MSG(std::addressof(res) == (le ? std::addressof(l.target) : std::addressof(t)), "| on an option of a reference yields a reference to another object"); l.unchanged("|"); }
        }
        if (op == 5) {
            if constexpr (L == 0 && !std::is_reference_v<T> && std::is_assignable_v<std::remove_reference_t<T>&, VT> && !opt::is_option_v<VT>) {
                VT v = Ty<VT>::make(rs);
                auto& res = (l.o |= static_cast<VT&&>(v)); REQUIRE(&res == &l.o);
                REQUIRE_MSG(l.o.has_value() && Ty<VT>::same(l.o.get(), le ? ls : rs), "|= with a value: wrong state");
                if (le) REQUIRE_MSG(Ty<VT>::same(v, rs), "|= used its right operand though the left one has a value");
                l.o = opt::none; l.o |= opt::none; REQUIRE_MSG(!l.o.has_value(), "|= none made the option non-empty");
            }
            if constexpr (L == 0 && std::is_reference_v<T>) { auto t = Ty<VT>::make(rs); std::remove_reference_t<T>& alt = t; l.o |= alt; REQUIRE(l.o.has_value()); REQUIRE_MSG(std::addressof(l.o.get()) == (le ? std::addressof(l.target) : std::addressof(t)), "|= on an option of a reference binds another object"); REQUIRE(Ty<VT>::same(l.target, ls)); }
        }
        // an operand combined with itself
        if (op == 6) {
            if constexpr (copyT && (std::is_copy_assignable_v<std::remove_reference_t<T>> || std::is_reference_v<T>)) {
                const auto& x = l.o;
                result("x|x", x | x, le, l, ls); result("x&x", x & x, le, l, ls); REQUIRE_MSG(!(x ^ x).has_value(), "x^x is not empty");
                l.o |= l.o; l.unchanged("x|=x");
                opt::option<T> none; result("x|none", x | none, le, l, ls); result("none|x", none | x, le, l, ls); result("x^none", x ^ none, le, l, ls); result("none^x", none ^ x, le, l, ls);
                REQUIRE(!(x & none).has_value() && !(none & x).has_value()); l.unchanged("logical operators");
            }
        }
    }
};
template<class T, class U> void logical(Case& c) {
    reg::reset();
    {
        int op = int(c.pick(7)), cat = int(c.pick(9)); bool le = c.coin(), re = c.coin(); u64 ls = c.interesting(), rs = c.interesting();
        static const char* const names[] = {"|", "^", "&", "|=", "| value", "|= value", "with itself"};
        c.log("option<%s> %s %s option<%s>: left %d (%llu), right %d (%llu), categories %s %s", Ty<bare<T>>::name(), cat_names[cat / 3], names[op], Ty<bare<U>>::name(), int(le), (unsigned long long)ls, int(re), (unsigned long long)rs, cat_names[cat / 3], cat_names[cat % 3]);
        switch (cat) {
#define K(i) case i: Bin<T, U, i / 3, i % 3>::run(c, op, le, re, ls, rs); break;
        K(0) K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8)
#undef K
        }
        c.nontrivial(le || re);
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects are left over", reg::live());
}
#define LO(T, U) REG("logical " #T " " #U, (&logical<T, U>));
