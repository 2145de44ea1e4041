// Every call calls back: the same call made several times in a row, with the results used or not, on an unchanged option
// (an optimizer which takes the call for one without effects would merge or discard the calls).
#include "p09_common.hpp"
namespace {
// its only effect is outside of the arguments
int calls = 0, fail_at = -1;
inline void called() { if (++calls == fail_at) throw 7; }
struct Yes { template<class X> bool operator()(X&&) const { called(); return true; } };
struct No { template<class X> bool operator()(X&&) const { called(); return false; } };
struct Num { template<class X> int operator()(X&&) const { called(); return 5; } };
struct Opt { template<class X> opt::option<int> operator()(X&&) const { called(); return 5; } };
struct Nothing { template<class X> void operator()(X&&) const { called(); } };
struct Gen { int operator()() const { called(); return 6; } };
template<class T> struct GenOpt { opt::option<T> operator()() const { called(); return opt::none; } };
struct Pair2 { template<class X, class Y> int operator()(X&&, Y&&) const { called(); return 1; } };
struct Pair0 { template<class X, class Y> void operator()(X&&, Y&&) const { called(); } };
// one call; returns how many callbacks it makes for a full (first) and an empty (second) option
template<int Op, int Cat, class T> inline void once(opt::option<T>& o, unsigned& sum) {
    using O = opt::option<T>;
    auto&& x = as<Cat>(o);
#define X static_cast<decltype(x)>(x)
    if constexpr (Op == 0) { if (X.has_value_and(Yes{})) ++sum; }
    else if constexpr (Op == 1) { (void)X.has_value_and(Yes{}); }
    else if constexpr (Op == 2) { (void)X.inspect(Nothing{}); }
    else if constexpr (Op == 3) { (void)X.map_or(3, Num{}); }
    else if constexpr (Op == 4) { (void)X.map_or_else(Gen{}, Num{}); }
    else if constexpr (Op == 5) { (void)X.map(Num{}); }
    else if constexpr (Op == 6) { (void)X.and_then(Opt{}); }
    else if constexpr (Op == 7) { sum += unsigned(X.map(Num{}).has_value()) + unsigned(X.and_then(Opt{}).has_value()); }
    else if constexpr (Op == 8) { const O& k = o; (void)k.filter(No{}); }
    else if constexpr (Op == 9) { const O& k = o; (void)k.filter(Yes{}); }
    else if constexpr (Op == 10) { const O& k = o; (void)k.or_else(GenOpt<T>{}); }
    else if constexpr (Op == 11) { const O& k = o; (void)opt::zip_with(Pair2{}, k, k); }
    else if constexpr (Op == 12) { const O& k = o; opt::zip_with(Pair0{}, k, k); }
    else { (void)o.take_if(No{}); }
#undef X
}
constexpr int Ops = 14;
const int per_full[Ops] = {1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 0, 1, 1, 1}, per_none[Ops] = {0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0};
template<int Op, int Cat, class T> [[gnu::noinline]] void many(opt::option<T>& o, int n, unsigned& sum) {
    pbt::opaque(o);
    switch (n) {
    case 1: once<Op, Cat>(o, sum); break;
    case 2: once<Op, Cat>(o, sum); once<Op, Cat>(o, sum); break;
    case 3: once<Op, Cat>(o, sum); once<Op, Cat>(o, sum); once<Op, Cat>(o, sum); break;
    default: for (int i = 0; i < n; ++i) once<Op, Cat>(o, sum);
    }
}
template<class T> using Fn = void (*)(opt::option<T>&, int, unsigned&);
template<class T, int Cat, std::size_t... I> Fn<T> pick(int op, std::index_sequence<I...>) { static const Fn<T> t[] = {&many<int(I), Cat, T>...}; return t[op]; }
template<class T> void run(Case& c) {
    using V = bare<T>; u64 s = c.interesting(); Held<T> h(c.pick(4) != 0, s); int op = int(c.pick(Ops)), cat = int(c.pick(4)), n = 1 + int(c.pick(6));
    constexpr auto seq = std::make_index_sequence<Ops>{};
    Fn<T> f = cat == 0 ? pick<T, 0>(op, seq) : cat == 1 ? pick<T, 1>(op, seq) : cat == 2 ? pick<T, 2>(op, seq) : pick<T, 3>(op, seq);
    int per = h.engaged ? per_full[op] : per_none[op], want = n * per; unsigned sum = 0; calls = 0; fail_at = c.pick(4) == 0 ? 1 + int(c.pick(6)) : -1; bool thrown = false;
    c.log("option<%s> full %d, operation %d in category %s, %d times, callback %d throws", Ty<V>::name(), int(h.engaged), op, cat_names[cat], n, fail_at);
    try { f(h.o, n, sum); } catch (int x) { thrown = x == 7; }
    bool expect = fail_at > 0 && fail_at <= want; if (expect) want = fail_at;
    REQUIRE_MSG(calls == want, "option<%s> (full %d): %d equal calls of operation %d (category %s) called back %d times, expected %d", Ty<V>::name(), int(h.engaged), n, op, cat_names[cat], calls, want);
    REQUIRE_MSG(thrown == expect, "option<%s>: operation %d: the exception of the callback was %s", Ty<V>::name(), op, thrown ? "invented" : "lost");
    if (op == 0 && !expect) REQUIRE(sum == unsigned(want));
    h.unchanged("a repeated call"); if (n > 1 && per) c.nontrivial();
}
#define R09(...) REGW("repeated calls " #__VA_ARGS__, (&run<__VA_ARGS__>), 0.5);
R09(int) R09(bool) R09(double) R09(int*) R09(const int) R09(int&) R09(const std::string&) R09(std::string) R09(Padded) R09(ES) R09(std::tuple<int, bool>) R09(Empty) R09(opt::option<bool>)
}
