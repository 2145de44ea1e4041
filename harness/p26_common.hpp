// Construction helpers against direct construction: generated classes record which constructor ran and what its parameters
// were (category, identity, value, copies and moves on the way); every helper has to give the record of X(args...).
#pragma once
#include "types.hpp"

namespace mk {
struct Rec { static constexpr int N = 64; long e[N]; int n = 0; void add(long x) { if (n < N) e[n++] = x; } bool operator==(const Rec& o) const { return n == o.n && std::memcmp(e, o.e, sizeof(long) * std::size_t(n)) == 0; } };
inline Rec rec;
struct Env;
inline Env* env = nullptr;
struct A { int id, copies = 0, moves = 0; explicit A(int i) : id(i) {} A(const A& o) : id(o.id), copies(o.copies + 1), moves(o.moves) {} A(A&& o) noexcept : id(o.id), copies(o.copies), moves(o.moves + 1) { o.id = -o.id; }
    A& operator=(const A& o) { id = o.id; copies = o.copies + 100; moves = o.moves; return *this; } A& operator=(A&& o) noexcept { id = o.id; copies = o.copies; moves = o.moves + 100; o.id = -o.id; return *this; } };
struct D : A { using A::A; };
inline int fun(int x) { return x + 1; }
// everything an argument list can refer to
struct Env {
    A a, b; const A ca; D d; int i; const int ci; double x; std::string s; const std::string cs; std::vector<int> v; int arr[3]; std::initializer_list<int> il; std::unique_ptr<int> u; int* p; bool t;
    static std::initializer_list<int> list(u64 s) { static const std::initializer_list<int> l[] = {{}, {1}, {1, 2, 3}, {7, 7}}; return l[s % 4]; }
    explicit Env(u64 s) : a(int(s % 1000) + 1), b(int(mix(s) % 1000) + 1001), ca(int(mix(s + 1) % 1000) + 2001), d(int(mix(s + 2) % 1000) + 3001), i(int(mix(s + 3))), ci(int(mix(s + 4) % 50)), x(double(i) / 3), s(str_of(mix(s + 5))), cs(str_of(mix(s + 6))), v{1, i, 3}, arr{1, 2, i}, il(list(s >> 7)), u(new int(i)), p(&i), t((s >> 9 & 1) != 0) { env = this; }
    ~Env() { env = nullptr; }
    long state() const { return long(mix(u64(a.id) * 31 + u64(b.id) * 37 + u64(ca.id) + u64(d.id) * 41 + (u ? 1 : 2) + u64(v.size()) * 5 + s.size() * 11 + cs.size() * 13 + u64(i) + u64(a.copies + a.moves * 3 + b.copies * 5 + b.moves * 7) * 1000)); }
    long offset(const void* q) const { auto k = reinterpret_cast<const char*>(q) - reinterpret_cast<const char*>(this); return k >= 0 && k < long(sizeof *this) ? long(k) : -1; }
};
// what a constructor sees of one parameter, declared as P
inline long value(const A& y) { return y.id * 10000L + y.copies * 100 + y.moves; }
inline long value(int y) { return y; } inline long value(bool y) { return y; } inline long value(double y) { return long(bits_of(y) >> 1); } inline long value(int* y) { return env->offset(y); } inline long value(std::nullptr_t) { return -5; }
inline long value(const char* y) { return long(std::strlen(y)); } inline long value(const std::string& y) { return long(std::hash<std::string>()(y) >> 1); } inline long value(const std::vector<int>& y) { return long(y.size()) * 100 + (y.empty() ? 0 : y.back()); }
inline long value(std::initializer_list<int> y) { return long(y.size()) * 1000 + (y.size() ? *y.begin() : 0); } inline long value(const std::unique_ptr<int>& y) { return y ? *y : -7; }
template<class P, class Y> void see(int k, Y& y) { rec.add(k * 8 + (std::is_lvalue_reference_v<P> ? 1 : std::is_rvalue_reference_v<P> ? 2 : 3) * 2 + std::is_const_v<std::remove_reference_t<P>>); if (std::is_reference_v<P>) rec.add(env->offset(&y)); rec.add(value(y)); }
template<class... P, class... Y> void ctor(int k, Y&... y) { rec.add(1000 + k); int n = 0; (see<P>(n++, y), ...); (void)n; }
template<class T> long where(const T& x) { return env->offset(&x); }
inline long where(const std::initializer_list<int>& x) { return value(x); }   // passed on by value
// the object: which constructor, how often it was copied or moved since
struct Base { int how = 0, hops = 0; Base() = default; explicit Base(int h) : how(h) {} Base(const Base& o) : how(o.how), hops(o.hops + 1) {} Base(Base&& o) noexcept : how(o.how), hops(o.hops + 100) {} Base& operator=(const Base&) = default; Base& operator=(Base&&) = default; };
struct Imm { int how = 0, hops = 0; explicit Imm(int h) : how(h) {} Imm(Imm&&) = delete; Imm& operator=(Imm&&) = delete; };

struct Seen { Rec r; long how, hops, state; };
template<class X> long how_of(const X& x) { return x.how; }
template<class X> long hops_of(const X& x) { return x.hops; }
template<class X> Seen seen(const X& x) { return {rec, how_of(x), hops_of(x), env->state()}; }
// f(args...) with a fresh environment; f returns what it saw
template<class L, class F> Seen with(u64 s, F&& f) { Env e(s); auto t = L::args(e); rec = Rec{}; return std::apply([&](auto&&... a) { return f(static_cast<decltype(a)&&>(a)...); }, std::move(t)); }
template<class L, class T> struct Args;
template<class L, class... Ts> struct Args<L, std::tuple<Ts...>> {
    template<class X> static constexpr bool can = std::is_constructible_v<X, Ts...>;
    template<class X> static constexpr bool option_can = std::is_constructible_v<opt::option<X>, Ts...>;
    template<class X> static constexpr bool in_place_can = std::is_constructible_v<opt::option<X>, std::in_place_t, Ts...> && std::is_constructible_v<opt::option<X>, const std::in_place_t&, Ts...>;
    template<class X> static constexpr bool in_place_any = std::is_constructible_v<opt::option<X>, std::in_place_t, Ts...> || std::is_constructible_v<opt::option<X>, const std::in_place_t&, Ts...>;
    static constexpr std::size_t size = sizeof...(Ts);
    template<class X, class = void> struct in_place_implicit : std::false_type {};
    template<class X> struct in_place_implicit<X, decltype(std::declval<void (&)(opt::option<X>)>()({std::in_place, std::declval<Ts>()...}))> : std::true_type {};
    template<class X, class = void> struct implicit : std::false_type {};
    template<class O> struct implicit<O, decltype(std::declval<void (&)(O)>()({std::declval<Ts>()...}))> : std::true_type {};
    template<class X> static constexpr bool converts() { if constexpr (sizeof...(Ts) == 1) return (std::is_convertible_v<Ts, X> && ...); else return true; }
};
template<class L> using ArgsOf = Args<L, decltype(L::args(std::declval<Env&>()))>;
inline void same(const char* x, const char* l, const char* what, const Seen& got, const Seen& want) {
    REQUIRE_MSG(got.r == want.r && got.how == want.how, "%s from (%s): %s ran another constructor or gave it other arguments (constructor %ld, expected %ld)", x, l, what, got.how, want.how);
    REQUIRE_MSG(got.hops == want.hops, "%s from (%s): %s copied or moved the constructed object (%ld)", x, l, what, got.hops);
    REQUIRE_MSG(got.state == want.state, "%s from (%s): %s left the arguments in another state", x, l, what);
}
template<class X, class L, int Kind = 0> void test(Case& c) {   // Kind 1: X is an aggregate
    using As = ArgsOf<L>; using O = opt::option<X>; const u64 s = c.interesting(); static const unsigned char fills[] = {0, 0xff, 0x01, 0xa5}; const unsigned char fill = fills[c.pick(4)];
    constexpr bool can = Kind == 1 || As::template can<X>; constexpr std::size_t n = As::size; const char* xn = X::label(); const char* ln = L::label();
    c.log("%s from (%s)", xn, ln);
    if constexpr (Kind == 0) {
        REQUIRE_MSG(can == As::template in_place_can<X> && can == As::template in_place_any<X>, "%s: construction in place from (%s) is %s, constructing the type itself is %s", xn, ln, can ? "not available" : "available", can ? "available" : "not");
        if (n == 1 && can) REQUIRE_MSG(As::template implicit<O>::value == As::template converts<X>(), "%s: an option is made of (%s) %s", xn, ln, As::template converts<X>() ? "explicitly only" : "implicitly");
        if (n >= 1 && L::plain) REQUIRE_MSG(can == As::template option_can<X>, "%s: construction from (%s) is %s, constructing the type itself is %s", xn, ln, can ? "not available" : "available", can ? "available" : "not");
    } else REQUIRE_MSG(As::template in_place_can<X>, "%s: construction in place from (%s) is not available", xn, ln);
    REQUIRE_MSG(!As::template in_place_implicit<X>::value, "%s: construction in place from (%s) is implicit", xn, ln);
    if constexpr (can) {
        const Seen want = with<L>(s, [&](auto&&... a) { alignas(X) unsigned char buf[sizeof(X)]; std::memset(buf, fill, sizeof buf); pbt::opaque(buf); X* p; if constexpr (Kind == 1) p = ::new (static_cast<void*>(buf)) X{static_cast<decltype(a)&&>(a)...}; else p = ::new (static_cast<void*>(buf)) X(static_cast<decltype(a)&&>(a)...); pbt::opaque(buf); Seen r = seen(*p); p->~X(); return r; });
        constexpr bool movable = std::is_move_constructible_v<X>;
        auto run = [&](const char* what, auto&& f) { c.log("%s", what); same(xn, ln, what, with<L>(s, f), want); };
#define FWD static_cast<decltype(a)&&>(a)...
        auto look = [&](auto& o, const char* what) -> Seen { pbt::opaque(o); REQUIRE_MSG(o.has_value(), "%s from (%s): %s gave an empty option", xn, ln, what); return seen(*o); };
        switch (c.pick(14)) {
        case 0: run("option(in_place, ...)", [&](auto&&... a) { Box<O> o(fill, std::in_place, FWD); return look(*o, "option(in_place, ...)"); }); break;
        case 1: run("option{in_place, ...}", [&](auto&&... a) { O o{std::in_place, FWD}; return look(o, "option{in_place, ...}"); }); break;
        case 2: run("make_option<T>", [&](auto&&... a) { auto o = opt::make_option<X>(FWD); static_assert(std::is_same_v<decltype(o), O>); return look(o, "make_option<T>"); }); break;
        case 3: run("emplace over nothing", [&](auto&&... a) { Box<O> o(fill); auto& r = o->emplace(FWD); static_assert(std::is_same_v<decltype(r), X&>); REQUIRE(&r == &**o); return look(*o, "emplace"); }); break;
        case 4: run("emplace over a value", [&](auto&&... a) { Rec k = rec; Box<O> o(fill); X::fill(*o); rec = k; auto& r = o->emplace(FWD); REQUIRE(&r == &**o); return look(*o, "emplace"); }); break;
        case 5: run("try_emplace", [&](auto&&... a) { Box<O> o(fill); auto& r = o->try_emplace(FWD); static_assert(std::is_same_v<decltype(r), X&>); REQUIRE(&r == &**o); return look(*o, "try_emplace"); }); break;
        case 6: { Env e(s); Box<O> o(fill); X::fill(*o); const long h = how_of(**o), p = hops_of(**o); const long st = e.state(); rec = Rec{}; auto t = L::args(e); std::apply([&](auto&&... a) { auto& r = o->try_emplace(FWD); REQUIRE(&r == &**o); }, std::move(t));
            REQUIRE_MSG(rec.n == 0 && o->has_value() && how_of(**o) == h && hops_of(**o) == p && e.state() == st, "%s from (%s): try_emplace over a value did something", xn, ln); } break;
        case 7: if constexpr (movable && std::is_copy_constructible_v<X>) run("value_or_construct", [&](auto&&... a) { const O o; X x = o.value_or_construct(FWD); return seen(x); }); break;
        case 8: if constexpr (movable) run("value_or_construct of an rvalue", [&](auto&&... a) { O o; X x = static_cast<O&&>(o).value_or_construct(FWD); return seen(x); }); break;
        case 9: if constexpr (n >= (Kind == 0 ? 1 : 2) && L::plain) { if (c.coin()) run("option(...)", [&](auto&&... a) { Box<O> o(fill, FWD); return look(*o, "option(...)"); }); else { if constexpr (n >= 2 || As::template implicit<O>::value) run("option = {...}", [&](auto&&... a) { O o = {FWD}; return look(o, "option = {...}"); }); } } break;
        case 10: run("option<const T>(in_place, ...)", [&](auto&&... a) { Box<opt::option<const X>> o(fill, std::in_place, FWD); return look(*o, "option<const T>(in_place, ...)"); }); break;
        case 11: run("a nested option", [&](auto&&... a) { Box<opt::option<O>> o(fill, std::in_place, std::in_place, FWD); REQUIRE(o->has_value()); return look(**o, "a nested option"); }); break;
        case 12: run("emplace of a nested option", [&](auto&&... a) { Box<opt::option<O>> o(fill); auto& r = o->emplace(std::in_place, FWD); REQUIRE(&r == &**o); return look(**o, "emplace of a nested option"); }); break;
        default: if constexpr (Kind == 0) run("piecewise construction of a pair", [&](auto&&... a) { Box<opt::option<std::pair<X, bool>>> o(fill, std::in_place, std::piecewise_construct, std::forward_as_tuple(FWD), std::forward_as_tuple(true)); REQUIRE((*o)->second); pbt::opaque(*o); REQUIRE(o->has_value()); return seen((*o)->first); }); break;
        }
        c.nontrivial(n > 0);
    } else c.nontrivial();
}
}
