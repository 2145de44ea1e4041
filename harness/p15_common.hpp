// Options of references: a (binding) model; objects outside change only by writes through the bound option.
#pragma once
#include "p09_common.hpp"

// Pool types: V and, where B differs, V derives from B
template<class V, class B = V> struct RefMachine {
    static constexpr int N = 4, M = 3;
    struct World {
        V obj[N]; u64 val[N];
        opt::option<V&> o[M]; int m[M];
        opt::option<const V&> k[2]; int mk[2];
        opt::option<B&> b[2]; int mb[2];
        int copies0 = 0;
        template<std::size_t... I> World(const u64* s, std::index_sequence<I...>) : obj{Ty<V>::make(s[I])...}, val{s[I]...}, m{-1, -1, -1}, mk{-1, -1}, mb{-1, -1} {}
    };
    template<class R> static void one(World& w, const R& r, int m, const char* op, const char* which) {
        pbt::opaque(r);
        REQUIRE_MSG(r.has_value() == (m >= 0), "%s: %s option is %d, expected %s", op, which, int(r.has_value()), m >= 0 ? "bound" : "empty");
        if (m >= 0) {
            using T = typename R::value_type; T want = w.obj[m];
            REQUIRE_MSG(std::addressof(r.get()) == std::addressof(want) && std::addressof(*r) == std::addressof(want) && r.operator->() == std::addressof(want) && r.ptr_or_null() == std::addressof(want) && std::addressof(r.value()) == std::addressof(want) && std::addressof(r.get_unchecked()) == std::addressof(want), "%s: %s option refers to another object than the one last bound", op, which);
            static_assert(std::is_same_v<decltype(r.get()), T> && std::is_same_v<decltype(*r), T>, "constness of the option does not propagate to the referred object");
        } else REQUIRE(r.ptr_or_null() == nullptr);
    }
    static void all(World& w, const char* op) {
        for (int i = 0; i < M; ++i) one(w, w.o[i], w.m[i], op, "a T&");
        for (int i = 0; i < 2; ++i) { one(w, w.k[i], w.mk[i], op, "a const T&"); one(w, w.b[i], w.mb[i], op, "a base&"); }
        for (int i = 0; i < N; ++i) REQUIRE_MSG(Ty<V>::same(w.obj[i], w.val[i]), "%s: object %d was modified", op, i);
    }
    static void run(Case& c) {
        reg::reset();
        {
            u64 s[N]; for (u64& x : s) x = c.interesting();
            World w(s, std::make_index_sequence<N>{}); int n = 2 + int(c.pick(20)); int changes = 0;
            long copies = reg::st().copies, moves = reg::st().moves;
            for (int step = 0; step < n; ++step) {
                int i = int(c.pick(M)), j = int(c.pick(M)), x = int(c.pick(N)), q = int(c.pick(2)); const char* op = "";
                auto& a = w.o[i]; const auto& cb = w.o[j]; int& ma = w.m[i];
                switch (c.pick(36)) {
                case 0: op = "= object"; a = w.obj[x]; ma = x; break;
                case 1: op = "emplace"; { V& r = a.emplace(w.obj[x]); REQUIRE(&r == &w.obj[x]); } ma = x; break;
                case 2: op = "reset"; a.reset(); ma = -1; break;
                case 3: op = "= none"; a = opt::none; ma = -1; break;
                case 4: op = "= option"; a = cb; ma = w.m[j]; break;
                case 5: op = "= moved option"; a = static_cast<opt::option<V&>&&>(w.o[j]); ma = w.m[j]; break;
                case 6: op = "copy construction"; { opt::option<V&> t(cb); one(w, t, w.m[j], op, "the new"); } break;
                case 7: op = "move construction"; { opt::option<V&> t(static_cast<opt::option<V&>&&>(w.o[j])); one(w, t, w.m[j], op, "the new"); } break;
                case 8: op = "swap member"; a.swap(w.o[j]); std::swap(ma, w.m[j]); break;
                case 9: op = "opt::swap"; { using std::swap; opt::swap(a, w.o[j]); std::swap(ma, w.m[j]); } break;
                case 10: op = "take"; { auto t = a.take(); static_assert(std::is_same_v<decltype(t), opt::option<V&>>); one(w, t, ma, op, "the taken"); ma = -1; } break;
                case 11: op = "take_if"; { bool p = c.coin(); int calls = 0; auto t = a.take_if([&](V& v) { ++calls; REQUIRE(&v == &w.obj[ma]); return p; }); REQUIRE(calls == (ma >= 0)); one(w, t, p ? ma : -1, op, "the taken"); if (p) ma = -1; } break;
                case 12: op = "|= object"; a |= w.obj[x]; if (ma < 0) ma = x; break;
                case 13: op = "|= option"; a |= cb; if (ma < 0) ma = w.m[j]; break;
                case 14: op = "write through"; if (ma >= 0) { u64 v = c.interesting(); const auto& ca = a; switch (c.pick(4)) { case 0: a.get() = Ty<V>::make(v); break; case 1: *ca = Ty<V>::make(v); break; case 2: for (auto& e : ca) e = Ty<V>::make(v); break; default: a.value() = Ty<V>::make(v); } w.val[ma] = v; } break;
                case 15: op = "write the object"; { u64 v = c.interesting(); w.obj[x] = Ty<V>::make(v); w.val[x] = v; if (ma == x) REQUIRE(Ty<V>::same(a.get(), v)); } break;
                case 16: op = "construct from object"; { opt::option<V&> t(w.obj[x]); one(w, t, x, op, "the new"); opt::option<V&> u = w.obj[x]; one(w, u, x, op, "the new"); opt::option<V&> d{w.obj[x]}; one(w, d, x, op, "the new"); } break;
                case 17: op = "const option = object"; w.k[q] = w.obj[x]; w.mk[q] = x; break;
                case 18: op = "const option = const object"; w.k[q] = std::as_const(w.obj[x]); w.mk[q] = x; break;
                case 19: op = "const option = option"; w.k[q] = cb; w.mk[q] = w.m[j]; break;
                case 20: op = "const option = moved option"; w.k[q] = static_cast<opt::option<V&>&&>(w.o[j]); w.mk[q] = w.m[j]; break;
                case 21: op = "const option from option"; { opt::option<const V&> t(cb); one(w, t, w.m[j], op, "the new"); opt::option<const V&> u = w.o[j]; one(w, u, w.m[j], op, "the new"); opt::option<const V&> d = static_cast<opt::option<V&>&&>(w.o[j]); one(w, d, w.m[j], op, "the new"); } break;
                case 22: op = "base option = object"; w.b[q] = w.obj[x]; w.mb[q] = x; break;
                case 23: op = "base option = option"; w.b[q] = w.o[j]; w.mb[q] = w.m[j]; break;
                case 24: op = "base option = const option lvalue"; w.b[q] = cb; w.mb[q] = w.m[j]; break;
                case 25: op = "base option = moved option"; w.b[q] = static_cast<opt::option<V&>&&>(w.o[j]); w.mb[q] = w.m[j]; break;
                case 26: op = "base option from option"; { opt::option<B&> t(cb); one(w, t, w.m[j], op, "the new"); opt::option<const B&> u = w.o[j]; one(w, u, w.m[j], op, "the new"); opt::option<const B&> d = w.b[q]; one(w, d, w.mb[q], op, "the new"); } break;
                case 27: op = "= reference_wrapper"; a = std::ref(w.obj[x]); ma = x; break;
                case 28: op = "from reference_wrapper"; { opt::option<V&> t = std::ref(w.obj[x]); one(w, t, x, op, "the new"); opt::option<const V&> u = std::ref(w.obj[x]); one(w, u, x, op, "the new"); } break;
                case 29: op = "optional to value"; if constexpr (std::is_copy_constructible_v<V>) { opt::option<V> t(cb); REQUIRE(t.has_value() == (w.m[j] >= 0)); if (t) { REQUIRE(std::addressof(t.get()) != std::addressof(w.obj[w.m[j]])); REQUIRE(Ty<V>::same(*t, w.val[w.m[j]])); } } break;
                case 30: op = "swap of const options"; w.k[0].swap(w.k[1]); std::swap(w.mk[0], w.mk[1]); break;
                case 31: op = "self assignment"; { auto& r = a; a = r; a = static_cast<opt::option<V&>&&>(r); a.swap(r); } break;
                case 32: op = "value_or, ptr_or_null"; { V& r = a.value_or(w.obj[x]); REQUIRE_MSG(&r == &w.obj[ma >= 0 ? ma : x], "value_or refers to another object"); } break;
                case 33: op = "filter, or_else, inspect"; { bool p = c.coin(); auto t = a.filter([&](V&) { return p; }); one(w, t, p ? ma : -1, op, "the filtered"); auto u = a.or_else([&] { return opt::option<V&>(w.obj[x]); }); one(w, u, ma >= 0 ? ma : x, op, "the resulting"); int calls = 0; a.inspect([&](V& v) { ++calls; REQUIRE(&v == &w.obj[ma]); }); REQUIRE(calls == (ma >= 0)); } break;
                case 34: op = "= object of the current binding"; if (ma >= 0) { V& r = a.get(); a = r; } break;
                default: op = "std::swap, exchange"; { using std::swap; swap(a, w.o[j]); std::swap(ma, w.m[j]); auto old = std::exchange(a, opt::option<V&>(w.obj[x])); one(w, old, ma, op, "the old"); ma = x; } }
                ++changes; c.log("%s i=%d j=%d x=%d q=%d", op, i, j, x, q); all(w, op);
                (void)copies; (void)moves;
            }
            c.nontrivial(changes > 2);
        }
        REQUIRE_MSG(reg::live() == 0, "%d objects are left over", reg::live());
    }
};
