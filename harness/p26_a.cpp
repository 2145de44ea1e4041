// make_option of a value, deduction, as_option, from_nullable, value-initialization, initializer lists of standard types.
#include "p26_common.hpp"
#include "cats.hpp"
using mk::A; using mk::Rec; using mk::Env;
namespace {
struct Fn { int k; int operator()(int x) const { return x + k; } };
// f(expression) gives an option of the decayed type that holds exactly what the decayed type constructed from the expression holds
template<class Want, class E, class S> void wrap_one(Case& c, u64 s, const char* what, E&& expr, S&& same) {
    c.log("%s", what);
    auto check = [&](auto&& o, const char* how, const Want& w) { using O = std::remove_cv_t<std::remove_reference_t<decltype(o)>>; static_assert(std::is_same_v<O, opt::option<Want>>); pbt::opaque(o); REQUIRE_MSG(o.has_value(), "%s of %s gave an empty option", how, what); REQUIRE_MSG(same(*o, w), "%s of %s gave another value", how, what); };
    long st; { Env e(s); Want w(expr(e)); st = e.state(); (void)w; }
#define MK_ONE(how, ...) { Env e(s), e2(s); Want w(expr(e2)); mk::env = &e; auto o = __VA_ARGS__; check(o, how, w); REQUIRE_MSG(e.state() == st, "%s of %s left its argument in another state", how, what); }
    switch (c.pick(5)) {
    case 0: MK_ONE("make_option", opt::make_option(expr(e))) break;
    case 1: { Env e(s), e2(s); Want w(expr(e2)); mk::env = &e; opt::option o{expr(e)}; check(o, "deduction by braces", w); } break;
    case 2: { Env e(s), e2(s); Want w(expr(e2)); mk::env = &e; opt::option o(expr(e)); check(o, "deduction by parentheses", w); } break;
    case 3: { Env e(s), e2(s); Want w(expr(e2)); mk::env = &e; opt::option o = expr(e); check(o, "deduction by =", w); } break;
    default: MK_ONE("make_option<T>", opt::make_option<Want>(expr(e))) break;
    }
    c.nontrivial();
}
#define EXPR(...) [](Env& e) -> decltype(auto) { (void)e; return (__VA_ARGS__); }
void wrapping(Case& c) {
    const u64 s = c.interesting(); auto eq = [](const auto& a, const auto& b) { return a == b; }; auto eqa = [](const A& a, const A& b) { return a.id == b.id; };
    switch (c.pick(20)) {
    case 0: wrap_one<A>(c, s, "an lvalue", EXPR(e.a), eqa); break;
    case 1: wrap_one<A>(c, s, "a const lvalue", EXPR(e.ca), eqa); break;
    case 2: wrap_one<A>(c, s, "an rvalue", EXPR(std::move(e.a)), eqa); break;
    case 3: wrap_one<A>(c, s, "a const rvalue", EXPR(std::move(e.ca)), eqa); break;
    case 4: wrap_one<int>(c, s, "an int", EXPR(e.i), eq); break;
    case 5: wrap_one<int>(c, s, "a const int", EXPR(e.ci), eq); break;
    case 6: wrap_one<std::string>(c, s, "a string", EXPR(e.s), eq); break;
    case 7: wrap_one<std::string>(c, s, "an rvalue string", EXPR(std::move(e.s)), eq); break;
    case 8: wrap_one<std::unique_ptr<int>>(c, s, "an rvalue unique_ptr", EXPR(std::move(e.u)), [](const auto& a, const auto& b) { return a && b && *a == *b; }); break;
    case 9: wrap_one<const char*>(c, s, "a string literal", EXPR("abc"), [](const char* a, const char* b) { return std::strcmp(a, b) == 0; }); break;
    case 10: wrap_one<int*>(c, s, "an array", EXPR(e.arr), [](int* a, int* b) { return a == mk::env->arr && a[2] == b[2]; }); break;
    case 11: wrap_one<int (*)(int)>(c, s, "a function", EXPR(mk::fun), eq); break;
    case 12: wrap_one<bool>(c, s, "a bool", EXPR(e.t), eq); break;
    case 13: wrap_one<double>(c, s, "a double", EXPR(e.x), [](double a, double b) { return bits_of(a) == bits_of(b); }); break;
    case 14: wrap_one<int*>(c, s, "a pointer", EXPR(e.p), [](int* a, int*) { return a == &mk::env->i; }); break;
    case 15: wrap_one<std::vector<int>>(c, s, "a vector", EXPR(e.v), eq); break;
    case 16: wrap_one<std::vector<int>>(c, s, "an rvalue vector", EXPR(std::move(e.v)), eq); break;
    case 17: { // copies and moves made on the way
        Env e(s); int k = int(c.pick(3)); c.log("copies and moves, form %d", k);
        if (k == 0) { auto o = opt::make_option(e.a); REQUIRE(o->copies == 1 && o->moves == 0 && e.a.id == o->id); auto p = opt::make_option(std::move(e.b)); REQUIRE(p->copies == 0 && p->moves == 1 && e.b.id == -p->id); }
        else if (k == 1) { auto o = opt::make_option<A>(e.i & 0xffff); REQUIRE(o->copies == 0 && o->moves == 0 && o->id == (e.i & 0xffff)); auto p = opt::make_option<const A>(e.ca); static_assert(std::is_same_v<decltype(p), opt::option<const A>>); REQUIRE(p->copies == 1 && p->moves == 0); }
        else { opt::option o(e.a); REQUIRE(o->copies >= 1 && o->copies <= 2 && e.a.id == o->id); opt::option p(std::move(e.b)); REQUIRE(p->copies == 0 && p->moves >= 1); opt::option q(o); static_assert(std::is_same_v<decltype(q), opt::option<A>>); REQUIRE(q->id == o->id && q->copies == o->copies + 1); }
        c.nontrivial(); } break;
    case 18: { // options as arguments: make_option wraps them, deduction copies them
        bool full = c.coin(); c.log("a %s option", full ? "full" : "empty"); Env e(s); opt::option<A> o; if (full) o.emplace(e.a.id); opt::option<std::string> os; if (full) os = e.s;
        auto m = opt::make_option(o); static_assert(std::is_same_v<decltype(m), opt::option<opt::option<A>>>); pbt::opaque(m); REQUIRE_MSG(m.has_value() && m->has_value() == full && (!full || (*m)->id == e.a.id), "make_option of an option"); auto ms = opt::make_option(std::move(os)); static_assert(std::is_same_v<decltype(ms), opt::option<opt::option<std::string>>>); pbt::opaque(ms); REQUIRE(ms.has_value() && ms->has_value() == full && (!full || **ms == e.s));
        opt::option d{o}; static_assert(std::is_same_v<decltype(d), opt::option<A>>); REQUIRE(d.has_value() == full && (!full || d->id == e.a.id)); opt::option d2 = o; static_assert(std::is_same_v<decltype(d2), opt::option<A>>); REQUIRE(d2.has_value() == full);
        auto n = opt::make_option<opt::option<A>>(o); static_assert(std::is_same_v<decltype(n), opt::option<opt::option<A>>>); REQUIRE(n.has_value() && n->has_value() == full); auto x = opt::make_option<opt::option<A>>(opt::none); REQUIRE(x.has_value() && !x->has_value()); c.nontrivial(); } break;
    default: { // references
        Env e(s); c.log("references"); auto r = opt::make_option<A&>(e.a); static_assert(std::is_same_v<decltype(r), opt::option<A&>>); REQUIRE(&*r == &e.a && e.a.copies == 0); auto cr = opt::make_option<const A&>(e.ca); REQUIRE(&*cr == &e.ca); auto br = opt::make_option<A&>(e.d); REQUIRE(&*br == &e.d); opt::option<A&> ip(std::in_place, e.b); REQUIRE(&*ip == &e.b);
        auto w = opt::make_option(std::ref(e.a)); static_assert(std::is_same_v<decltype(w), opt::option<std::reference_wrapper<A>>>); REQUIRE(&w->get() == &e.a); auto pw = opt::make_option(Fn{e.ci}); REQUIRE((*pw)(1) == e.ci + 1); c.nontrivial(); } break;
    }
}
// a reference option to the object that the pointer points to, which may be an option
template<class T> void nullable_of(Case& c, T& x) {
    const T& cx = x; T* null = nullptr; const T* cnull = nullptr;
    auto o = opt::from_nullable(&x); static_assert(std::is_same_v<decltype(o), opt::option<T&>>); REQUIRE(o.has_value() && &o.get() == &x && &*o == &x && o.ptr_or_null() == &x);
    auto q = opt::from_nullable(&cx); static_assert(std::is_same_v<decltype(q), opt::option<const T&>>); REQUIRE(q.has_value() && &q.get() == &cx);
    auto n = opt::from_nullable(null); static_assert(std::is_same_v<decltype(n), opt::option<T&>>); REQUIRE(!n.has_value() && n == opt::none && n.ptr_or_null() == nullptr); REQUIRE(!opt::from_nullable(cnull).has_value());
    T* const kp = c.coin() ? &x : nullptr; auto k = opt::from_nullable(kp); REQUIRE(k.has_value() == (kp != nullptr) && k.ptr_or_null() == kp);
    static_assert(noexcept(opt::from_nullable(null)));
}
void nullable(Case& c) {
    Env e(c.interesting()); nullable_of(c, e.a); nullable_of(c, e.i); nullable_of(c, e.u); nullable_of(c, e.t); nullable_of<A>(c, e.d);
    opt::option<A> o; opt::option<bool> ob; if (c.coin()) { o.emplace(e.a.id); ob = e.t; } const bool full = o.has_value(); nullable_of(c, o); nullable_of(c, ob);
    auto r = opt::from_nullable(&o); REQUIRE(r->has_value() == full); r->emplace(11); REQUIRE(o.has_value() && o->id == 11); o.reset(); REQUIRE(!r->has_value() && r.has_value()); auto rb = opt::from_nullable(&ob); *rb = true; REQUIRE(ob.has_value() && *ob); rb->reset(); REQUIRE(!ob.has_value());
    int* arr = e.arr; for (int i = 0; i < 3; ++i) REQUIRE(&opt::from_nullable(arr + i).get() == e.arr + i); auto fnp = opt::from_nullable(&mk::fun); REQUIRE(fnp.has_value() && fnp.get()(4) == 5);
    REQUIRE(e.a.copies == 0 && e.a.moves == 0); c.nontrivial();
}
// the value becomes the stored bytes: a value is a value, the empty state of the traits is empty
template<class T, bool Raw> void as_opt(Case& c) {
    using Tr = opt::option_traits<T>; if constexpr (Tr::max_level > 0) {
        const u64 s = c.interesting(); T v(Ty<T>::make(s)); c.log("%s spec %llx", Ty<T>::name(), (unsigned long long)s); bool empty = false;
        if (Raw && c.pick(3) == 0) { Tr::set_level(&v, 0); empty = true; c.log("empty state"); }
        pbt::opaque(v); auto o = opt::as_option(v); static_assert(std::is_same_v<decltype(o), opt::option<T>>); pbt::opaque(o);
        REQUIRE_MSG(o.has_value() == !empty, "as_option of a %s %s is %s", empty ? "reserved" : "usual", Ty<T>::name(), empty ? "full" : "empty"); if (!empty) REQUIRE_MSG(Ty<T>::same(*o, s), "as_option of a %s has another value", Ty<T>::name());
        const T cv(Ty<T>::make(s)); auto p = opt::as_option(cv); static_assert(std::is_same_v<decltype(p), opt::option<T>>); REQUIRE(p.has_value() && Ty<T>::same(*p, s)); auto q = opt::as_option(Ty<T>::make(s)); REQUIRE(q.has_value() && Ty<T>::same(*q, s)); c.nontrivial();
    }
}
// without arguments: value-initialized whatever the storage contained
struct Triv { int a; void* b; double c; friend bool operator==(const Triv& x, const Triv& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } };
struct Priv { int v() const { return a + b[3]; } friend bool operator==(const Priv& x, const Priv& y) { return x.a == y.a && std::memcmp(x.b, y.b, sizeof x.b) == 0; } private: int a; int b[9]; };
struct Arr { std::array<int, 8> x; bool y; friend bool operator==(const Arr& p, const Arr& q) { return p.x == q.x && p.y == q.y; } };
struct Dflt { int x = 7; std::string s; friend bool operator==(const Dflt& p, const Dflt& q) { return p.x == q.x && p.s == q.s; } };
template<class T, class U> void non_default(opt::option<T>& o, U) { if (!o.has_value()) o.emplace(T());
    if constexpr (std::is_same_v<T, std::string>) *o = "a string of more than sixteen"; else if constexpr (std::is_same_v<T, std::vector<int>>) o->assign(5, 3); else if constexpr (std::is_same_v<T, Dflt>) { o->x = 9; o->s = "else"; } else if constexpr (std::is_same_v<T, E8>) { *o = E8(1); } else if constexpr (std::is_same_v<T, Arr>) { o->x.fill(3); o->y = true; } else { static_assert(std::is_trivially_copyable_v<T> || std::is_trivially_destructible_v<T>); std::memset(static_cast<void*>(&*o), 1, sizeof(T)); } }
template<class T> void non_default(opt::option<T>& o) { non_default(o, 0); }
template<class T> void zero(Case& c) {
    static const unsigned char fills[] = {0, 0xff, 0x01, 0xa5}; const unsigned char f = fills[c.pick(4)]; using O = opt::option<T>; const T want = T(); int k = int(c.pick(9)); c.log("form %d fill %d", k, f);
    auto look = [&](const O& o) { pbt::opaque(o); REQUIRE_MSG(o.has_value() && *o == want, "form %d of construction without arguments: the value is not value-initialized", k); };
    switch (k) {
    case 0: { Box<O> o(f, std::in_place); look(*o); } break; case 1: { Box<O> o(f); o->emplace(); look(*o); } break; case 2: { Box<O> o(f); non_default(*o); o->emplace(); look(*o); } break;
    case 3: { Box<O> o(f); o->try_emplace(); look(*o); } break; case 4: { auto o = opt::make_option<T>(); look(o); } break; case 5: { O o; look(O(o.value_or_construct())); } break;
    case 7: { Box<opt::option<O>> o(f, std::in_place, std::in_place); non_default(**o); if (c.coin()) { o->emplace(std::in_place); look(**o); } else { (*o)->emplace(); look(**o); } } break;
    default: { Box<opt::option<O>> o(f, std::in_place, std::in_place); look(**o); Box<opt::option<O>> e(f, std::in_place); REQUIRE(e->has_value() && !(*e)->has_value()); } break; }
    c.nontrivial(f != 0);
}
// initializer lists
void lists(Case& c) {
    using V = std::vector<int>; using St = std::set<int, std::greater<int>>; using Mp = std::map<int, std::string>; int x = int(c.u32()), y = int(c.pick(9)); std::allocator<int> al; const V want({x, y, 3}); const V empty; (void)empty;
    switch (c.pick(12)) {
    case 0: { opt::option<V> o(std::in_place, {x, y, 3}); REQUIRE(o.has_value() && *o == want); } break;
    case 1: { opt::option<V> o(std::in_place, {x, y, 3}, al); REQUIRE(o.has_value() && *o == want); } break;
    case 2: { auto o = opt::make_option<V>({x, y, 3}); static_assert(std::is_same_v<decltype(o), opt::option<V>>); REQUIRE(o.has_value() && *o == want); } break;
    case 3: { auto o = opt::make_option<V>({x, y, 3}, al); REQUIRE(o.has_value() && *o == want); } break;
    case 4: { const opt::option<V> o; V v = o.value_or_construct({x, y, 3}); REQUIRE(v == want); opt::option<V> f(std::in_place, {1}); REQUIRE(f.value_or_construct({x, y, 3}) == V{1}); REQUIRE(f->size() == 1); } break;
    case 5: { opt::option<V> o; V v = std::move(o).value_or_construct({x, y, 3}, al); REQUIRE(v == want); opt::option<V> f(std::in_place, {1, 2}); const int* p = f->data(); V g = std::move(f).value_or_construct({x}); REQUIRE((g == V{1, 2}) && g.data() == p); } break;
    case 6: { auto o = opt::make_option<St>({3, 1, x, 1}, std::greater<int>()); St w({3, 1, x}); REQUIRE(o.has_value() && *o == w); } break;
    case 7: { auto o = opt::make_option<Mp>({std::pair<const int, std::string>(1, "a"), std::pair<const int, std::string>(y, "b")}); Mp w({{1, "a"}, {y, "b"}}); REQUIRE(o.has_value() && *o == w); opt::option<Mp> p(std::in_place, {std::pair<const int, std::string>(1, "a"), std::pair<const int, std::string>(y, "b")}); REQUIRE(p.has_value() && *p == w); } break;
    case 8: { opt::option<std::string> o(std::in_place, {'a', char('a' + y), 'c'}); std::string w{'a', char('a' + y), 'c'}; REQUIRE(o.has_value() && *o == w); opt::option<std::string> p(std::in_place, std::size_t(y), 'q'); REQUIRE(p.has_value() && *p == std::string(std::size_t(y), 'q')); opt::option<std::string> q(std::in_place, "abcdef", std::size_t(3)); REQUIRE(*q == "abc"); opt::option<std::string> r("abcdef", std::size_t(y) % 6); REQUIRE(*r == std::string("abcdef", std::size_t(y) % 6)); } break;
    case 9: { std::initializer_list<int> none; opt::option<V> o(std::in_place, none); REQUIRE(o.has_value() && o->empty()); auto m = opt::make_option<V>(none); REQUIRE(m.has_value() && m->empty()); } break;
    case 10: { opt::option<opt::option<V>> o(std::in_place, std::in_place, std::initializer_list<int>{x, y, 3}); REQUIRE(o.has_value() && o->has_value() && **o == want); opt::option<std::pair<V, St>> p(std::in_place, std::piecewise_construct, std::forward_as_tuple(std::initializer_list<int>{x, y, 3}), std::forward_as_tuple(std::initializer_list<int>{1, 2})); REQUIRE(p.has_value() && p->first == want && p->second.size() == 2); } break;
    default: { opt::option<std::array<int, 3>> o(std::in_place, std::array<int, 3>{{x, y, 3}}); REQUIRE(o.has_value() && (*o)[0] == x && (*o)[1] == y && (*o)[2] == 3); opt::option<std::pair<int, std::string>> p(y, "abc"); REQUIRE(p.has_value() && p->first == y && p->second == "abc"); opt::option<std::tuple<int, bool, std::string>> t(x, true, "q"); REQUIRE(t.has_value() && std::get<0>(*t) == x && std::get<1>(*t) && std::get<2>(*t) == "q"); auto mt = opt::make_option<std::tuple<int, bool>>(x, false); REQUIRE(mt.has_value() && !std::get<1>(*mt)); } break;
    }
    c.nontrivial();
}
// aggregates: whatever T{args...} accepts, and nothing that it does not
template<class T, class... As> struct braces { template<class U, class = void> struct f : std::false_type {}; template<class U> struct f<U, decltype(U{std::declval<As>()...}, void())> : std::true_type {}; static constexpr bool value = f<T>::value; };
struct Nest { std::array<int, 2> a; int b; friend bool operator==(const Nest& x, const Nest& y) { return x.a == y.a && x.b == y.b; } };
struct Nest2 { Nest n; std::string s; std::array<Nest, 2> m; friend bool operator==(const Nest2& x, const Nest2& y) { return x.n == y.n && x.s == y.s && x.m == y.m; } };
struct One { int a; friend bool operator==(One x, One y) { return x.a == y.a; } }; struct ToOne { operator One() const { return One{3}; } };
template<class T, class... As> void elided_of(Case& c, As... as) {
    using O = opt::option<T>; const T want{as...}; static_assert(braces<T, As...>::value); static_assert(std::is_constructible_v<O, std::in_place_t, As...>, "in-place construction of an option of an aggregate from arguments that T{args...} accepts");
    auto look = [&](const O& o, const char* w) { pbt::opaque(o); REQUIRE_MSG(o.has_value() && o.get() == want, "%s of an aggregate has another value", w); };
    look(O(std::in_place, as...), "in-place construction"); if constexpr (sizeof...(As) > 1) look(O(as...), "construction from several arguments"); look(opt::make_option<T>(as...), "make_option");
    O o; if (c.coin()) { o.emplace(as...); look(o, "emplace over nothing"); } REQUIRE(&o.emplace(as...) == &o.get()); look(o, "emplace"); o.try_emplace(as...); look(o, "try_emplace over a value"); o.reset(); o.try_emplace(as...); look(o, "try_emplace over nothing"); o = T(want); look(o, "assignment");
    opt::option<O> n(std::in_place, std::in_place, as...); look(*n, "in-place construction of a nested option"); n->reset(); n->emplace(as...); look(*n, "emplace into a nested option"); REQUIRE(O().value_or_construct(as...) == want);
}
void elision(Case& c) {
    int x = int(c.u32()), y = int(c.pick(100)), z = int(c.interesting()); std::string s = str_of(c.interesting());
    elided_of<std::array<int, 3>>(c, x, y, z); elided_of<std::array<int, 2>>(c, x); elided_of<std::array<std::string, 2>>(c, s, s); elided_of<std::array<std::array<int, 2>, 2>>(c, x, y, z); elided_of<Nest>(c, x, y, z); elided_of<Nest>(c, x); elided_of<Nest2>(c, x, y, z, s, y, x, z); elided_of<One>(c, x);
    static_assert(!std::is_constructible_v<opt::option<One>, double> && !std::is_constructible_v<opt::option<One>, std::in_place_t, double> && !std::is_constructible_v<opt::option<One>, ToOne> && !std::is_constructible_v<opt::option<std::array<int, 2>>, std::in_place_t, int, int, int> && !std::is_constructible_v<opt::option<Nest>, std::in_place_t, int, int, int, int>, "an option of an aggregate claims to be constructible from what T{args...} does not accept");
    c.nontrivial();
}
#if __cplusplus >= 202002L
constexpr int elided_constant(int x) { opt::option<Nest> p(std::in_place, x, 2, 3); p.reset(); p.emplace(4, x, 6); opt::option<std::array<int, 3>> q(std::in_place, 1, x); q.reset(); q.try_emplace(1, x, 5); return p->a[1] * 100 + (*q)[1] * 10 + (*q)[2]; }
static_assert(elided_constant(7) == 775, "brace elision in constant expressions");
#endif
}
REGW("wrapping a value", &wrapping, 4.0);
REG("aggregates from their elements", &elision);
REG("from_nullable", &nullable);
REG("initializer lists", &lists);
#define AS(R, ...) REG("as_option " #__VA_ARGS__, (&as_opt<__VA_ARGS__, R>));
AS(true, float) AS(true, double) AS(true, int*) AS(true, const char*) AS(true, UT) AS(true, E8) AS(true, E32) AS(true, ES) AS(true, sent_int) AS(false, bool) AS(true, void (*)()) AS(false, AggIF) AS(false, std::string_view) AS(false, Padded) AS(false, AggNested) AS(false, std::complex<float>)
AS(false, int Host::*)
using ab3 = std::array<bool, 3>; AS(false, ab3)
#define ZE(...) REG("value-initialized " #__VA_ARGS__, (&zero<__VA_ARGS__>));
ZE(int) ZE(bool) ZE(float) ZE(int*) ZE(Triv) ZE(Priv) ZE(Arr) ZE(Dflt) ZE(std::string) ZE(E8)
using pii = std::pair<int, bool>; using tid = std::tuple<int, double, int*>; using ai = std::array<int, 5>; ZE(pii) ZE(tid) ZE(ai) ZE(std::complex<double>) ZE(std::vector<int>)
