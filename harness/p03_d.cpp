#include "p03_common.hpp"
// standard containers whose elements throw half-way through construction or assignment
using VT = std::vector<TT>;
struct AggBT2 { bool b; TT t; std::string s; };
template<class T> struct Mk;
template<> struct Mk<VT> { static VT make(u64 s) { VT v; for (u64 i = 0; i < s % 4; ++i) v.emplace_back(s + i); return v; } static long leaves(const VT& v) { for (auto& x : v) x.check(); return long(v.size()); } };
template<> struct Mk<AggBT2> { static AggBT2 make(u64 s) { return AggBT2{(s & 1) != 0, TT(s), Ty<std::string>::make(s)}; } static long leaves(const AggBT2& a) { a.t.check(); return 1; } };
using LST = std::list<TT>; template<> struct Mk<LST> { static LST make(u64 s) { LST v; for (u64 i = 0; i < s % 4; ++i) v.emplace_back(s + i); return v; } static long leaves(const LST& v) { for (auto& x : v) x.check(); return long(v.size()); } };
using MAP = std::map<int, TT>; template<> struct Mk<MAP> { static MAP make(u64 s) { MAP v; for (u64 i = 0; i < s % 4; ++i) v.emplace(int(i), s + i); return v; } static long leaves(const MAP& v) { for (auto& x : v) x.second.check(); return long(v.size()); } };
using PVB = std::pair<bool, VT>; template<> struct Mk<PVB> { static PVB make(u64 s) { return PVB((s >> 9) & 1, Mk<VT>::make(s)); } static long leaves(const PVB& v) { return Mk<VT>::leaves(v.second); } };
using VAR = std::variant<int, TT>; template<> struct Mk<VAR> { static VAR make(u64 s) { if (s & 1) return VAR(int(s)); return VAR(std::in_place_index<1>, s); } static long leaves(const VAR& v) { return v.index() == 1; } };
using OPTS = std::optional<TT>; template<> struct Mk<OPTS> { static OPTS make(u64 s) { if (s & 1) return OPTS(); return OPTS(std::in_place, s); } static long leaves(const OPTS& v) { return v.has_value(); } };
template<class T> void containers(Case& c) {
    reg::reset(); int thrown = 0;
    {
        opt::option<T> o[2]; int n = 1 + int(c.pick(8));
        for (int k = 0; k < n; ++k) {
            T a = Mk<T>::make(c.interesting()); int i = int(c.pick(2)), op = int(c.pick(10)); long at = c.pick(6); bool before = o[i].has_value();
            c.log("op %d on o%d (%s), exception at %ld", op, i, before ? "full" : "empty", at);
            reg::st().throw_in = at; bool threw = false;
            try {
                switch (op) { case 0: o[i] = a; break; case 1: o[i].emplace(a); break; case 2: o[i].try_emplace(a); break; case 3: o[i] = o[1 - i]; break; case 4: o[i] = opt::option<T>(a); break; case 5: { auto t = o[i]; } break;
                case 6: o[i].swap(o[1 - i]); break; case 7: { auto t = o[i].map([](const T& x) { return x; }); } break; case 8: { auto t = o[i].value_or(a); } break; default: o[i] = opt::none; } }
            catch (const reg::boom&) { threw = true; ++thrown; }
            reg::st().throw_in = -1;
            pbt::opaque(o);
            if (threw && op == 1) REQUIRE_MSG(!o[i].has_value(), "emplace threw and left a value");
            if (threw && (op == 0 || op == 2 || op == 3 || op == 4)) REQUIRE_MSG(o[i].has_value() == before, "operation %d threw: has_value()=%d, was %d", op, int(o[i].has_value()), int(before));
            if (threw && (op == 5 || op == 7 || op == 8)) REQUIRE_MSG(o[i].has_value() == before, "operation %d threw and changed an option it only reads", op);
            long leaves = Mk<T>::leaves(a); for (auto& x : o) if (x.has_value()) leaves += Mk<T>::leaves(*x);
            REQUIRE_MSG(reg::live() == leaves, "after operation %d (threw: %d): %d objects are alive, %ld are reachable", op, int(threw), reg::live(), leaves);
        }
    }
    REQUIRE_MSG(reg::live() == 0, "%d contained objects outlive their options", reg::live());
    c.nontrivial(thrown > 0);
}
#define CT(...) REG("containers with faults " #__VA_ARGS__, (&containers<__VA_ARGS__>));
CT(VT) CT(AggBT2) CT(LST) CT(MAP) CT(PVB) CT(VAR) CT(OPTS)

// callbacks of every other operation; the options survive and nothing leaks
PROP("callbacks throw") {
    reg::reset();
    {
        opt::option<TrackedN<1>> a, b; bool ea = c.coin(), eb = c.coin(); u64 s = c.interesting(); if (ea) a.emplace(s); if (eb) b.emplace(~s); int op = int(c.pick(9)); bool threw = false;
        auto boom = [&](auto&&...) -> int { throw reg::boom{op}; };
        try { switch (op) {
            case 0: (void)static_cast<opt::option<TrackedN<1>>&&>(a).map(boom); break; case 1: (void)a.map_or(0, boom); break; case 2: (void)a.map_or_else(boom, boom); break; case 3: (void)a.inspect(boom); break; case 4: (void)a.take_if([&](auto&) -> bool { throw reg::boom{op}; }); break;
            case 5: (void)static_cast<opt::option<TrackedN<1>>&&>(a).filter([&](auto&) -> bool { throw reg::boom{op}; }); break; case 6: (void)static_cast<opt::option<TrackedN<1>>&&>(a).or_else([&]() -> opt::option<TrackedN<1>> { throw reg::boom{op}; }); break; case 7: (void)opt::zip_with(boom, a, b); break; default: (void)static_cast<opt::option<TrackedN<1>>&&>(a).and_then([&](auto&&) -> opt::option<int> { throw reg::boom{op}; }); } }
        catch (const reg::boom& x) { threw = true; REQUIRE(x.code == op); }
        bool want = op == 2 ? true : op == 6 ? !ea : op == 7 ? ea && eb : ea;
        REQUIRE_MSG(threw == want, "operation %d: thrown %d, expected %d", op, int(threw), int(want));
        if (op != 6) REQUIRE_MSG(a.has_value() == ea && (!ea || Ty<TrackedN<1>>::same(*a, s)), "a throwing callback changed the option"); REQUIRE(b.has_value() == eb);
        c.nontrivial(threw);
    }
    REQUIRE(reg::live() == 0);
}
