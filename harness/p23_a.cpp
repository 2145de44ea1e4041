// Move-only and counted standard types through every operation that needs no copy: the very object that went in comes out.
#include "cats.hpp"
#include <functional>
#include <memory>
#include <string>
#include <future>
using up = std::unique_ptr<int>; struct Del { int tag = 3; void operator()(int* p) const { delete p; } }; using upd = std::unique_ptr<int, Del>; using vup = std::vector<up>; using pub = std::pair<up, bool>; using pbu = std::pair<bool, up>; using aup = std::array<up, 2>; using oup = opt::option<up>; using tup_ = std::tuple<int, up>; struct AggU { int a; up p; };
template<class T> struct Mo;
template<> struct Mo<up> { static up make(int v) { return std::make_unique<int>(v); } static const int* id(const up& x) { return x.get(); } };
template<> struct Mo<upd> { static upd make(int v) { return upd(new int(v)); } static const int* id(const upd& x) { return x.get(); } };
template<> struct Mo<vup> { static vup make(int v) { vup r; r.push_back(std::make_unique<int>(v)); return r; } static const int* id(const vup& x) { return x.empty() ? nullptr : x[0].get(); } };
template<> struct Mo<pub> { static pub make(int v) { return pub(std::make_unique<int>(v), v & 1); } static const int* id(const pub& x) { return x.first.get(); } };
template<> struct Mo<pbu> { static pbu make(int v) { return pbu(v & 1, std::make_unique<int>(v)); } static const int* id(const pbu& x) { return x.second.get(); } };
template<> struct Mo<aup> { static aup make(int v) { return aup{{std::make_unique<int>(v), nullptr}}; } static const int* id(const aup& x) { return x[0].get(); } };
template<> struct Mo<oup> { static oup make(int v) { return oup(std::make_unique<int>(v)); } static const int* id(const oup& x) { return x.has_value() ? x->get() : nullptr; } };
template<> struct Mo<tup_> { static tup_ make(int v) { return tup_(v, std::make_unique<int>(v)); } static const int* id(const tup_& x) { return std::get<1>(x).get(); } };
template<> struct Mo<AggU> { static AggU make(int v) { return AggU{v, std::make_unique<int>(v)}; } static const int* id(const AggU& x) { return x.p.get(); } };
template<> struct Mo<std::shared_ptr<int>> { static std::shared_ptr<int> make(int v) { return std::make_shared<int>(v); } static const int* id(const std::shared_ptr<int>& x) { return x.get(); } };
template<> struct Mo<std::vector<int>> { static std::vector<int> make(int v) { return std::vector<int>(3, v); } static const int* id(const std::vector<int>& x) { return x.data(); } };
template<class T> void move_only(Case& c) {
    using O = opt::option<T>; using M = Mo<T>; const int v = int(c.pick(1000)), w = int(c.pick(1000)); const bool has = c.pick(4) != 0; T first = M::make(v); const int* const id = M::id(first); T alt = M::make(w); const int* const aid = M::id(alt);
    O o; if (has) { if (c.coin()) o = static_cast<T&&>(first); else o.emplace(static_cast<T&&>(first)); }
    auto is = [&](const O& x, const int* want, const char* what) { pbt::opaque(x); REQUIRE_MSG(x.has_value() == (want != nullptr), "%s: the result is %s", what, want ? "empty" : "full"); if (want) REQUIRE_MSG(M::id(x.get()) == want, "%s: another object came out", what); };
    auto eq = [&](const T& x, const int* want, const char* what) { REQUIRE_MSG(M::id(x) == want, "%s: another object came out", what); };
    const int* const here = has ? id : nullptr; const int* const best = has ? id : aid;
    is(o, here, "storing"); int op = int(c.pick(24)); c.log("op %d, full %d", op, int(has)); auto mo = [&]() -> O&& { return static_cast<O&&>(o); }; auto ma = [&]() -> T&& { return static_cast<T&&>(alt); };
    switch (op) {
    case 0: { O t(mo()); is(t, here, "move construction"); } break;
    case 1: { O t(ma()); t = mo(); is(t, here, "move assignment"); } break;
    case 2: is(o.take(), here, "take"); REQUIRE(!o.has_value()); break;
    case 3: is(o.take_if([&](T& x) { return M::id(x) == id; }), here, "take_if"); REQUIRE(!o.has_value()); break;
    case 4: eq(mo().value_or(ma()), best, "value_or"); break;
    case 5: eq(mo().value_or_construct(ma()), best, "value_or_construct"); break;
    case 6: if constexpr (!opt::is_option_v<T>) eq(mo() | ma(), best, "operator|"); break;
    case 7: is(mo() | O(ma()), best, "operator|"); break;
    case 8: is(mo() ^ O(), here, "operator^"); break;
    case 9: is(opt::option<int>(1) & mo(), here, "operator&"); break;
    case 10: o |= ma(); is(o, best, "operator|="); break;
    case 11: is(mo().filter([](const T&) { return true; }), here, "filter"); break;
    case 12: is(mo().or_else([&] { return O(ma()); }), best, "or_else"); break;
    case 13: is(mo().map([](T&& x) -> T { return static_cast<T&&>(x); }), here, "map"); break;
    case 14: is(mo().and_then([](T x) { return O(static_cast<T&&>(x)); }), here, "and_then"); break;
    case 15: eq(mo().map_or(ma(), [](T&& x) { return static_cast<T&&>(x); }), best, "map_or"); break;
    case 16: eq(mo().map_or_else([&]() -> T { return ma(); }, [](T&& x) -> T { return static_cast<T&&>(x); }), best, "map_or_else"); break;
    case 17: { auto z = opt::zip(mo(), opt::option<int>(5)); REQUIRE(z.has_value() == has); if (has) eq(std::get<0>(*z), id, "zip"); auto u = opt::unzip(static_cast<decltype(z)&&>(z)); is(std::get<0>(u), here, "unzip"); } break;
    case 18: if constexpr (!opt::is_option_v<T>) { opt::option<O> oo(mo()); is(opt::flatten(static_cast<opt::option<O>&&>(oo)), here, "flatten"); } break;
    case 19: { O t(ma()); o.swap(t); is(o, aid, "swap"); is(t, here, "swap"); } break;
    case 20: if (has) { auto t = opt::make_option(static_cast<T&&>(o.get())); is(t, id, "make_option"); O u{std::in_place, static_cast<T&&>(t.get())}; is(u, id, "in_place"); opt::option d(static_cast<T&&>(*u)); if constexpr (!opt::is_option_v<T>) is(d, id, "deduction"); } break;
    case 21: { std::vector<O> vec; vec.push_back(mo()); vec.emplace_back(ma()); vec.reserve(50); vec.insert(vec.begin(), O()); is(vec[1], here, "vector"); is(vec[2], aid, "vector"); } break;
    case 22: { auto f = [x = mo()]() mutable { return static_cast<O&&>(x); }; auto g = [](O x) { return x; }; is(g(f()), here, "capture and return"); } break;
    default: { if (has) { T t = mo().value(); eq(t, id, "value()"); T u = *O(static_cast<T&&>(t)); eq(u, id, "operator*"); T x = O(static_cast<T&&>(u)).get(); eq(x, id, "get()"); } } break;
    }
    c.nontrivial(has);
}
#define MO(...) REG("move only " #__VA_ARGS__, (&move_only<__VA_ARGS__>));
MO(up) MO(upd) MO(vup) MO(pub) MO(pbu) MO(aup) MO(oup) MO(tup_) MO(AggU) MO(std::shared_ptr<int>) MO(std::vector<int>)

// an alternative given as an initializer list: the value of an rvalue option is moved, that of an lvalue copied once, an alternative is constructed in place
struct Lst { static long cp, mv, built; std::vector<int> v; Lst(std::initializer_list<int> l, int extra = 0) : v(l) { v.push_back(extra); ++built; } Lst(const Lst& o) : v(o.v) { ++cp; } Lst(Lst&& o) noexcept : v(static_cast<std::vector<int>&&>(o.v)) { ++mv; } Lst& operator=(const Lst& o) { v = o.v; ++cp; return *this; } Lst& operator=(Lst&& o) noexcept { v = static_cast<std::vector<int>&&>(o.v); ++mv; return *this; } };
long Lst::cp = 0; long Lst::mv = 0; long Lst::built = 0;
static_assert(!std::is_aggregate_v<Lst>);
void list_alternative(Case& c) {
    using O = opt::option<Lst>; const int x = int(c.u32() % 1000), y = int(c.pick(9)); const bool full = c.pick(3) != 0; O o; if (full) o.emplace(std::initializer_list<int>{x, x + 1}, 5); const O& co = o; const int* data = full ? o->v.data() : nullptr; const bool two = c.coin(); const int op = int(c.pick(3)); c.log("op %d, full %d, two arguments %d", op, int(full), int(two));
    Lst::cp = Lst::mv = Lst::built = 0;
    auto look = [&](const Lst& r, bool moved) { const std::vector<int> want = full ? std::vector<int>{x, x + 1, 5} : std::vector<int>{y, y, 2, two ? 9 : 0}; REQUIRE_MSG(r.v == want, "value_or_construct with a list: another value"); if (full) { REQUIRE_MSG(Lst::built == 0, "the alternative was constructed although there is a value"); REQUIRE_MSG(Lst::cp == (moved ? 0 : 1) && Lst::mv == (moved ? 1 : 0), "value_or_construct with a list copied %ld and moved %ld times", Lst::cp, Lst::mv); if (moved) REQUIRE(r.v.data() == data); else REQUIRE(o->v.data() == data && o->v.size() == 3); } else REQUIRE_MSG(Lst::built == 1 && Lst::cp == 0 && Lst::mv == 0, "the alternative was copied or moved %ld times", Lst::cp + Lst::mv); };
    if (op == 0) { Lst r = two ? o.value_or_construct({y, y, 2}, 9) : o.value_or_construct({y, y, 2}); look(r, false); }
    else if (op == 1) { Lst r = two ? co.value_or_construct({y, y, 2}, 9) : co.value_or_construct({y, y, 2}); look(r, false); }
    else { Lst r = two ? static_cast<O&&>(o).value_or_construct({y, y, 2}, 9) : static_cast<O&&>(o).value_or_construct({y, y, 2}); look(r, true); }
    Lst::cp = Lst::mv = Lst::built = 0; O e; Lst* where = two ? &e.emplace(std::initializer_list<int>{y, x}, 3) : &e.try_emplace(std::initializer_list<int>{y, x}); REQUIRE(where == &*e && Lst::built == 1 && Lst::cp == 0 && Lst::mv == 0); REQUIRE((e->v == std::vector<int>{y, x, two ? 3 : 0})); Lst& again = e.try_emplace(std::initializer_list<int>{1}); REQUIRE(&again == where && Lst::built == 1 && Lst::cp == 0 && Lst::mv == 0);
    O p(std::in_place, {x, y}, 8); auto m = opt::make_option<Lst>({y}, 4); REQUIRE(Lst::built == 3 && Lst::cp == 0 && Lst::mv == 0 && p->v.back() == 8 && m->v[0] == y && m->v.back() == 4); c.nontrivial();
}
REG("alternatives as initializer lists", &list_alternative);
