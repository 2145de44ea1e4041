#include "p02_common.hpp"
// trivial copies, non-trivial destructor: emplacing must construct, destruction must be counted
struct Quiet { u64 v; static inline long alive = 0; bool counts; explicit Quiet(u64 x) noexcept : v(x), counts(true) { ++alive; } Quiet(const Quiet&) = default; Quiet& operator=(const Quiet&) = default; ~Quiet() { --alive; v = 0xdd; } };
PROP("trivial assignment with a counted destructor") {
    long destroyed0 = DtorOnly::destroyed; bool e = c.coin(); u64 s = c.interesting(), r = c.interesting(); long want = 0;
    {
        opt::option<DtorOnly> o; if (e) { DtorOnly v(s); o.emplace(v.v); want = 1; }
        REQUIRE(DtorOnly::destroyed - destroyed0 == want);
        switch (c.pick(5)) {
        case 0: o.emplace(r); want += e; e = true; s = r; break;
        case 1: o.reset(); want += e; e = false; break;
        case 2: o = opt::none; want += e; e = false; break;
        case 3: { opt::option<DtorOnly> t = o.take(); want += e; REQUIRE_MSG(DtorOnly::destroyed - destroyed0 == want, "take destroyed %ld objects", DtorOnly::destroyed - destroyed0 - want); REQUIRE(t.has_value() == e && (!e || t->v == s)); if (e) ++want; e = false; } break;
        default: { opt::option<DtorOnly> t(o), u; u = t; o = u; REQUIRE(u.has_value() == e && (!e || (u->v == s && o->v == s))); want += 2 * e; } break;
        }
        REQUIRE_MSG(DtorOnly::destroyed - destroyed0 == want, "%ld destructions, expected %ld", DtorOnly::destroyed - destroyed0, want);
        REQUIRE(o.has_value() == e && (!e || o->v == s)); want += e;
    }
    REQUIRE_MSG(DtorOnly::destroyed - destroyed0 == want, "%ld destructions after the end of the option, expected %ld", DtorOnly::destroyed - destroyed0, want);
    c.nontrivial();
}
// destruction happens inside of the operation, before the next construction
struct Ordered { int id; static inline std::vector<int>* log = nullptr; explicit Ordered(int i) : id(i) { log->push_back(i); } Ordered(const Ordered&) = delete; Ordered& operator=(const Ordered&) = delete; ~Ordered() { log->push_back(-id); } };
PROP("order of destruction and construction") {
    std::vector<int> log, want; Ordered::log = &log; int next = 1, cur = 0; int n = 1 + int(c.pick(12));
    {
        opt::option<Ordered> o;
        for (int k = 0; k < n; ++k) switch (c.pick(4)) {
            case 0: o.emplace(next); if (cur) want.push_back(-cur); want.push_back(next); cur = next++; REQUIRE(log == want); break;
            case 1: o.reset(); if (cur) want.push_back(-cur); cur = 0; REQUIRE_MSG(log == want, "reset does not destroy at once"); break;
            case 2: o.try_emplace(next); if (!cur) { want.push_back(next); cur = next; } ++next; REQUIRE(log == want); break;
            default: o = opt::none; if (cur) want.push_back(-cur); cur = 0; REQUIRE_MSG(log == want, "assigning none does not destroy at once"); break;
        }
        if (cur) want.push_back(-cur);
    }
    REQUIRE(log == want); c.nontrivial(n > 2);
}
// types that interfere with naive construction and destruction
struct Hostile {
    u64 v; explicit Hostile(u64 x) : v(x) { reg::born(this); } Hostile(const Hostile& o) : v(o.v) { reg::born(this); } Hostile& operator=(const Hostile& o) { v = o.v; return *this; } ~Hostile() { reg::died(this); }
    Hostile* operator&() = delete; const Hostile* operator&() const = delete; static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; template<class X> void operator,(X&&) const = delete;
};
PROP("types overloading address-of, new and comma") {
    reg::reset();
    { opt::option<Hostile> o; u64 s = c.interesting(), r = c.interesting(); o.emplace(s); REQUIRE(o.has_value() && o->v == s && o.ptr_or_null()->v == s && reg::live() == 1); opt::option<Hostile> p(o), q; q = p; REQUIRE(q->v == s && reg::live() == 3); q = opt::option<Hostile>(Hostile(r)); REQUIRE(q->v == r && reg::live() == 3); p.reset(); REQUIRE(reg::live() == 2);
      p = Hostile(r); REQUIRE(p->v == r); o = q; REQUIRE(o->v == r); for (auto& x : o) x.v = s; REQUIRE(o->v == s); auto t = o.take(); REQUIRE(!o.has_value() && t->v == s); REQUIRE(reg::live() == 3); q.swap(t); REQUIRE(q->v == s && t->v == r); o.try_emplace(r); REQUIRE(reg::live() == 4);
      opt::option<opt::option<Hostile>> oo; oo.emplace(s); REQUIRE(oo.has_value() && oo->has_value() && (*oo)->v == s && reg::live() == 5); oo->reset(); REQUIRE(oo.has_value() && !oo->has_value() && reg::live() == 4);
      opt::option<std::pair<Hostile, bool>> pb; pb.emplace(Hostile(s), true); REQUIRE(pb.has_value() && pb->first.v == s && pb->second && reg::live() == 5); pb.reset(); REQUIRE(reg::live() == 4); }
    REQUIRE(reg::live() == 0); c.nontrivial();
}
// heap blocks of standard types are all released (the runner compares allocation counts after each case)
template<class T> void blocks(Case& c) {
    opt::option<T> a, b; int n = 2 + int(c.pick(10));
    for (int k = 0; k < n; ++k) { u64 s = c.interesting(); switch (c.pick(7)) { case 0: a.emplace(Ty<T>::make(s)); break; case 1: a = Ty<T>::make(s); break; case 2: b = static_cast<opt::option<T>&&>(a); break; case 3: a.swap(b); break; case 4: a.reset(); break; case 5: b = a.take(); break; default: if constexpr (std::is_copy_constructible_v<T>) b = a; } }
    c.nontrivial(n > 3);
}
REG("heap string", (&blocks<std::string>)); REG("heap vector", (&blocks<std::vector<int>>)); REG("heap unique_ptr of array", (&blocks<std::unique_ptr<int[]>>)); REG("heap unique_ptr", (&blocks<std::unique_ptr<int>>)); REG("heap shared_ptr", (&blocks<std::shared_ptr<int>>)); REG("heap pair", (&blocks<std::pair<std::string, std::unique_ptr<int>>>)); REG("heap nested", (&blocks<opt::option<std::string>>)); REG("heap array", (&blocks<std::array<std::string, 2>>));
