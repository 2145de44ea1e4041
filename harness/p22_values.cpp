// Wrapped types whose list construction differs from their direct construction: the wrapper must hold what the plain type
// would, however it is constructed or assigned.
#include "p22_common.hpp"
#include <any>
#include <initializer_list>
namespace {
// takes anything, also itself, as an element of a list
struct Greedy {
    int how = 0; u64 v = 0;
    struct Item { u64 v; Item(int x) : v(u64(x)) {} Item(u64 x) : v(x) {} Item(const Greedy& g) : v(g.v ^ 0x5555) {} };
    Greedy() = default; Greedy(const Greedy&) = default; Greedy(Greedy&&) = default; Greedy& operator=(const Greedy&) = default;
    explicit Greedy(u64 x) : how(1), v(x) {} Greedy(int a, int b) : how(2), v(u64(a) * 31 + u64(b)) {}
    Greedy(std::initializer_list<Item> l) : how(3) { for (auto& i : l) v = v * 31 + i.v + 7; }
    bool operator==(const Greedy& o) const { return how == o.how && v == o.v; }
};
struct GreedyCmp { bool operator()(const Greedy& g, int k) const { return g.how == -1 && g.v == u64(k); } };
struct GreedySet { void operator()(Greedy& g, int k) const { g.how = -1; g.v = u64(k); } };
struct Holder { Greedy g; int* p = nullptr; Holder(const Greedy& x) : g(x) {} Holder(int a, int b) : g(a, b) {} bool operator==(const Holder& o) const { return g == o.g && p == o.p; } };
struct Agg { Greedy a; int* p; bool operator==(const Agg& o) const { return a == o.a && p == o.p; } };
using Anys = std::vector<std::any>; using Ints = std::vector<int>;
bool same(const Anys& a, const Anys& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) { auto x = std::any_cast<int>(&a[i]), y = std::any_cast<int>(&b[i]); if (!x || !y || *x != *y) return false; }
    return true;
}
template<class T> bool same(const T& a, const T& b) { return a == b; }
template<class T> T value(Case& c);
template<> Anys value<Anys>(Case& c) { Anys r(c.pick(5)); for (auto& x : r) x = int(c.pick(100)); return r; }
template<> Ints value<Ints>(Case& c) { Ints r(c.pick(5)); for (auto& x : r) x = int(c.pick(100)); return r; }
template<> std::string value<std::string>(Case& c) { return std::string(c.pick(30), char('a' + c.pick(26))); }
template<> Greedy value<Greedy>(Case& c) { u64 s = c.interesting(); if (c.coin()) return Greedy(s); return Greedy(int(s % 1000), int(s / 7 % 1000)); }
template<> Holder value<Holder>(Case& c) { return Holder(value<Greedy>(c)); }
template<> Agg value<Agg>(Case& c) { static int x; return Agg{value<Greedy>(c), c.coin() ? &x : nullptr}; }
template<class W, class T> void holds(const W& w, const T& t, const char* how) { REQUIRE_MSG(same(w.m, t), "a wrapper %s does not hold the value it was given", how); }
template<class T, class W> void keeps(Case& c) {
    using O = opt::option<W>; const T a = value<T>(c), b = value<T>(c); T l = a; const char* h;
    h = "constructed from a constant"; { W w(a); holds(w, a, h); W v = a; holds(v, a, h); W u{a}; holds(u, a, h); }
    h = "constructed from a variable"; { W w(l); holds(w, a, h); W v = l; holds(v, a, h); REQUIRE(same(l, a)); }
    h = "constructed from a temporary"; { W w{T(a)}; holds(w, a, h); W v = T(a); holds(v, a, h); T m = a; W u(static_cast<T&&>(m)); holds(u, a, h); }
    h = "copied or moved"; { W w(a); W v(w); holds(v, a, h); holds(w, a, h); W u(static_cast<W&&>(v)); holds(u, a, h); const W k(a); W x(k); holds(x, a, h); }
    h = "assigned"; { W w(a); w = b; holds(w, b, h); w = l; holds(w, a, h); w = T(b); holds(w, b, h); W v(a); w = v; holds(w, a, h); }
    h = "inside an option"; {
        O o(a); REQUIRE(o.has_value()); holds(*o, a, h); O p(l); holds(*p, a, h); O q(T{a}); q = b; holds(*q, b, h); O r; r = l; holds(*r, a, h); O s(std::in_place, b); holds(*s, b, h); O n; n.emplace(a); holds(*n, a, h); n = opt::none; n.try_emplace(l); holds(*n, a, h);
        O y(o); holds(*y, a, h); O z(static_cast<O&&>(y)); holds(*z, a, h); W w(b); O e(w); holds(*e, b, h); e = W(a); holds(*e, a, h); auto f = o.map([](const W& x) { return T(static_cast<const T&>(x)); }); REQUIRE_MSG(same(*f, a), "mapping a wrapper to its value gives another one");
        auto mk = opt::make_option<W>(l); holds(*mk, a, h); holds(opt::option<W>().value_or(W(b)), b, h); holds(o.value_or(W(b)), a, h); holds(opt::option<W>().value_or_construct(b), b, h);
    }
    c.nontrivial(!same(a, b));
}
// several arguments mean to the wrapper what they mean to the plain type in the same place of an option
template<class T, class W, class... A> void args(Case&, const A&... as) {
    opt::option<T> plain(std::in_place, as...); W w(as...); holds(w, *plain, "constructed from several arguments"); opt::option<W> o(std::in_place, as...); holds(*o, *plain, "constructed in place"); o.emplace(as...); holds(*o, *plain, "emplaced");
    o.reset(); o.try_emplace(as...); holds(*o, *plain, "emplaced when empty"); auto m = opt::make_option<W>(as...); holds(*m, *plain, "made from several arguments");
}
using Fn = opt::sentinel_f<Greedy, GreedyCmp, GreedySet, 1, 2, 3>;
using Mem = opt::member<Holder, &Holder::p>; using AggM = opt::member<Agg, &Agg::p>;
void several(Case& c) {
    int a = int(c.pick(20)), b = int(c.pick(20)); std::size_t n = c.pick(6); Greedy g(a, b); int* p = c.coin() ? &a : nullptr;
    args<Ints, opt::enforce<Ints>>(c, n, a); args<std::string, opt::enforce<std::string>>(c, n, char('a' + a)); args<Greedy, Fn>(c, a, b); args<Holder, Mem>(c, a, b); args<Agg, AggM>(c, g, p); args<Greedy, Fn>(c, u64(a)); args<Holder, Mem>(c, g);
    c.nontrivial(n > 2);
}
REG("values of enforce<vector<any>>", (&keeps<Anys, opt::enforce<Anys>>));
REG("values of enforce<vector<int>>", (&keeps<Ints, opt::enforce<Ints>>));
REG("values of enforce<string>", (&keeps<std::string, opt::enforce<std::string>>));
REG("values of sentinel_f of a class with a greedy list constructor", (&keeps<Greedy, Fn>));
REG("values of member of a class with a greedy list constructor", (&keeps<Holder, Mem>));
REG("values of member of an aggregate", (&keeps<Agg, AggM>));
REG("several arguments", several);
}
