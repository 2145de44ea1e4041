// Faults injected at every throwing point of every operation.
#pragma once
#include "p02_common.hpp"

template<class T> struct Inj {
    using V = std::remove_const_t<T>; using O = opt::option<T>; using Y = Ty<V>;
    static constexpr int ops = 30;
    // what the operation leaves behind when it throws: 0 as before, 1 engaged, 2 empty
    struct Expect { int d = 0, s = 0; };
    // runs the operation; e.d/e.s say what a throw must leave
    static void perform(int op, O& d, O& s, u64 r, Expect& e, const V* extra, bool pred, bool& skipped) {
        auto& st = reg::st(); (void)st;
        bool ed = d.has_value(), es = s.has_value();
        switch (op) {
        case 0: e.d = ed ? 1 : 2; d = *extra; break;
        case 1: { e.d = ed ? 1 : 2; d = static_cast<V&&>(*const_cast<V*>(extra)); } break;
        case 2: e.d = ed ? 1 : 2; d = static_cast<const O&>(s); break;
        case 3: e.d = ed ? 1 : 2; d = static_cast<O&&>(s); break;
        case 4: e.d = 2; d.emplace(*extra); break;
        case 5: e.d = 2; d.emplace(static_cast<V&&>(*const_cast<V*>(extra))); break;
        case 6: e.d = ed ? 0 : 2; d.try_emplace(*extra); break;
        case 7: { O t = d.take(); (void)t; } e.d = 2; break;
        case 8: { O t = d.take_if([&](auto&) { return pred; }); (void)t; } break;
        case 9: { O t = d.take_if([&](auto&) -> bool { reg::point(); return pred; }); (void)t; } break;
        case 10: e.d = ed ? 1 : 0; e.s = es ? 1 : 0; d.swap(s); break;
        case 11: e.d = ed ? 1 : 0; e.s = es ? 1 : 0; { using std::swap; swap(d, s); } break;
        case 12: { O t(static_cast<const O&>(d)); } break;
        case 13: { O t(static_cast<O&&>(d)); } break;
        case 14: { V v = static_cast<const O&>(d).value_or(*extra); } break;
        case 15: { V v = static_cast<O&&>(d).value_or(*extra); } break;
        case 16: { auto t = d.map([&](auto& x) { reg::point(); return Y::make(r); }); } break;
        case 17: { auto t = d.and_then([&](auto& x) { reg::point(); return O(x); }); } break;
        case 18: { auto t = d.filter([&](auto& x) { reg::point(); return pred; }); } break;
        case 19: { auto t = static_cast<const O&>(d).or_else([&] { reg::point(); return O(*extra); }); } break;
        case 20: { (void)d.inspect([&](auto&) { reg::point(); }); (void)d.has_value_and([&](auto&) { reg::point(); return pred; }); (void)d.map_or(1, [&](auto&) { reg::point(); return 2; }); (void)d.map_or_else([&] { reg::point(); return 1; }, [&](auto&) { reg::point(); return 2; }); } break;
        case 21: { auto t = d | s; auto u = d ^ s; auto w = d & s; V v = d | *extra; } break;
        case 22: e.d = ed ? 0 : 2; d |= s; break;
        case 23: e.d = ed ? 0 : 2; d |= *extra; break;
        case 24: { auto z = opt::zip(static_cast<const O&>(d), static_cast<const O&>(s)); auto w = opt::zip_with([&](const V& a, const V& b) { reg::point(); return Y::make(r); }, d, s); } break;
        case 25: e.d = ed ? 1 : 2; d = O(*extra); break;
        case 26: { O t(std::in_place, *extra); O t2(*extra); auto m = opt::make_option<V>(*extra); } break;
        case 27: { auto t = static_cast<const O&>(d).value_or_construct(*extra); } break;
        case 28: { std::vector<O> v; v.push_back(d); v.push_back(s); v.push_back(O()); v.insert(v.begin(), O()); } break;
        default: e.d = -1; e.s = -1; d = s.take(); break;
        }
    }
    static void run(Case& c) {
        reg::reset(); bool threw = false;
        {
            static const unsigned char fills[] = {0, 0xff, 0x01};
            bool ed = c.coin(), es = c.coin(), pred = c.chance(3, 4), skipped = false; u64 s1 = c.interesting(), s2 = c.interesting(), r = c.interesting();
            int op = int(c.pick(ops)); long at = c.pick(8);
            Box<O> d(fills[c.pick(3)]), s(fills[c.pick(3)]); V extra = Y::make(r);
            if (ed) d->emplace(Y::make(s1)); if (es) s->emplace(Y::make(s2));
            c.log("op %d, destination %s, source %s, exception at point %ld (%s)", op, ed ? "full" : "empty", es ? "full" : "empty", at, Y::name());
            Expect e; int code = -1, want_code = int(reg::st().points + at + 1);
            reg::st().throw_in = at;
            try { perform(op, *d, *s, r, e, &extra, pred, skipped); } catch (const reg::boom& b) { threw = true; code = b.code; }
            bool armed = reg::st().throw_in >= 0; reg::st().throw_in = -1;
            REQUIRE_MSG(threw == !armed, "operation %d swallowed an exception of the contained type or callback", op);
            if (threw) {
                REQUIRE_MSG(code == want_code, "another exception than the one thrown reached the caller");
                pbt::opaque(*d); pbt::opaque(*s);
                auto judge = [&](const O& o, int ex, bool before, const char* n) {
                    if (ex == -1) return;
                    bool want = ex == 1 ? true : ex == 2 ? false : before;
                    REQUIRE_MSG(o.has_value() == want, "operation %d threw at point %ld: the %s option has_value()=%d, expected %d", op, at, n, int(o.has_value()), int(want));
                };
                judge(*d, e.d, ed, "destination"); judge(*s, e.s, es, "source");
                // operations that only read keep the value
                if (e.d == 0 && ed && op != 13 && op != 15 && op != 7 && op != 8 && op != 9 && op != 18) REQUIRE_MSG(Y::same(d->get(), s1), "operation %d threw and changed the value it only reads", op);
            }
            long want = live_per_value<T> * (1 + int(d->has_value()) + int(s->has_value()));
            if (live_per_value<T> > 0) REQUIRE_MSG(reg::live() == want, "operation %d (threw: %d): %d objects are alive, the options and the local value account for %ld", op, int(threw), reg::live(), want);
            // every option is still usable
            switch (c.pick(4)) {
            case 0: d->reset(); s->reset(); REQUIRE(!d->has_value() && !s->has_value()); break;
            case 1: *d = Y::make(s2); *s = *d; REQUIRE(Y::same(d->get(), s2) && Y::same(s->get(), s2)); break;
            case 2: d->emplace(Y::make(r)); d->swap(*s); REQUIRE(s->has_value() && Y::same(s->get(), r)); break;
            default: break;
            }
        }
        REQUIRE_MSG(reg::live() == 0, "%d contained objects outlive their options", reg::live());
        c.nontrivial(threw);
    }
};
#define INJ(...) REG("faults " #__VA_ARGS__, (&Inj<__VA_ARGS__>::run));
#define TM(...) REG("machine with faults " #__VA_ARGS__, (&throwing_machine<__VA_ARGS__>));
using TT = TrackedN<1, true>;
