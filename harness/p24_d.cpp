// Options of bool, of option-aware types and from options of references, by hand.
#include "p24_types.hpp"
namespace {
// options of bool convert from the value, never from being full; options are never taken for a value of bool
template<class U> void to_bool(Case& c) {
    using B = opt::option<bool>; bool has = c.coin(), d = c.coin(), dv = c.coin(); U v = Mk<U>::make(int(c.pick(3))); opt::option<U> s; if (has) s = v;
    auto is = [&](const B& b) { REQUIRE(b.has_value() == has); if (has) REQUIRE(*b == static_cast<bool>(v)); };
    const opt::option<U>& k = s; B a(s), b(k), e(opt::option<U>{k}); is(a); is(b); is(e);
    if constexpr (std::is_convertible_v<U, bool>) { B f = s, g = k; B h = opt::option<U>{k}; is(f); is(g); is(h); }
    REQUIRE(s.has_value() == has && (!has || *s == v)); (void)d; (void)dv; c.nontrivial(has);
}
REG("option of bool from option of int", &to_bool<int>);
REG("option of bool from option of double", &to_bool<double>);
REG("option of bool from option of a pointer", &to_bool<const char*>);
REG("option of bool from option of an enumeration", &to_bool<Un>);
PROP("an option that holds an option-aware or all-accepting value") {
    using I = opt::option<int>; bool has = c.coin(); int v = int(c.pick(1000)); I i; if (has) i = v;
    { opt::option<std::any> a(i); REQUIRE(a.has_value()); const I* p = std::any_cast<I>(&*a); REQUIRE(p && *p == i); opt::option<std::any> b; b = i; REQUIRE(b.has_value() && std::any_cast<I>(&*b)); b.reset(); b = v; REQUIRE(std::any_cast<int>(*b) == v); opt::option<std::any> d(v); REQUIRE(std::any_cast<int>(&*d)); }
    { opt::option<std::variant<std::string, I>> a(i); REQUIRE(a.has_value() && a->index() == 1 && std::get<1>(*a) == i); a = std::string("x"); REQUIRE(a->index() == 0); a = i; REQUIRE(a.has_value() && a->index() == 1 && std::get<1>(*a) == i); }
    { opt::option<std::optional<int>> a; std::optional<int> so; if (has) so = v; a = so; REQUIRE(a.has_value() && *a == so); opt::option<std::optional<int>> b(std::nullopt); REQUIRE(b.has_value() && !b->has_value()); }
    { opt::option<opt::option<long>> a(i); REQUIRE(a.has_value() && a->has_value() == has && (!has || **a == v)); opt::option<opt::option<long>> b = i; REQUIRE(b.has_value() && b->has_value() == has); b.reset(); b = i; REQUIRE(b.has_value() && b->has_value() == has); opt::option<opt::option<long>> d{opt::none}; REQUIRE(!d.has_value()); opt::option<opt::option<opt::option<long>>> e(a); REQUIRE(e.has_value() && (*e).has_value() && (**e).has_value() == has); }
    { opt::option<opt::option<long>> a; opt::option<I> oi; bool full = c.coin(); if (full) oi.emplace(i); a = oi; REQUIRE(a.has_value() == full); if (full) REQUIRE(a->has_value() == has && (!has || **a == v)); opt::option<opt::option<long>> b(oi); REQUIRE(b.has_value() == full && (!full || b->has_value() == has)); REQUIRE(oi.has_value() == full); }
    c.nontrivial(has);
}
PROP("an option taken from an option of a reference") {
    int x = int(c.pick(1000)); bool has = c.coin(), d = c.coin(); opt::option<int&> r; if (has) r = x; const opt::option<int&>& kr = r;
    opt::option<long> a(r), b = kr, e; if (d) e = 5L; e = r; for (const auto* p : {&a, &b, &e}) { REQUIRE(p->has_value() == has); if (has) REQUIRE(**p == x); }
    opt::option<int> f(r), g = kr, h; if (d) h = 5; h = kr; for (const auto* p : {&f, &g, &h}) { REQUIRE(p->has_value() == has); if (has) { REQUIRE(**p == x); REQUIRE(&**p != &x); } }
    opt::option<const int&> k(r), m; int y = 1; if (d) m = y; m = r; REQUIRE(k.ptr_or_null() == (has ? &x : nullptr) && m.ptr_or_null() == (has ? &x : nullptr) && y == 1);
    static_assert(!std::is_constructible_v<opt::option<int&>, opt::option<const int&>> && !std::is_assignable_v<opt::option<int&>&, opt::option<const int&>> && !std::is_constructible_v<opt::option<int&>, opt::option<long&>>);
    Derived z(4); opt::option<Derived&> rd; if (has) rd = z; opt::option<Base&> rb(rd), rc; rc = rd; REQUIRE(rb.ptr_or_null() == (has ? static_cast<Base*>(&z) : nullptr) && rc.ptr_or_null() == rb.ptr_or_null()); opt::option<Base> copy(rd); REQUIRE(copy.has_value() == has && (!has || copy->b == z.b));
    opt::option<std::string> s; if (has) s = text(x); opt::option<std::string&> rs; if (has) rs = *s; opt::option<std::string_view> v(rs), w = rs; REQUIRE(v.has_value() == has && (!has || (v->data() == s->data() && w->size() == s->size()))); opt::option<std::string> s2 = rs; REQUIRE(s2 == s);
    c.nontrivial(has);
}
}
