// Laws relating the operations, and member pointers as callables.
#include "p09_common.hpp"

// random partial functions int -> int
struct Fn { int a, b, mod, hole; int operator()(int x) const { return int(unsigned(x) * unsigned(a) + unsigned(b)); } };
static Fn fn(Case& c) { return Fn{int(c.pick(7)) - 3, int(c.pick(100)), int(c.pick(5)) + 2, int(c.pick(5))}; }
template<class T> opt::option<T> oval(Case& c) { if (c.chance(1, 3)) return opt::none; return opt::option<T>(T(c.interesting())); }
template<class T> static T app(const Fn& f, T x) { if constexpr (std::is_same_v<T, bool>) return ((f.a + int(x) * f.b) & 1) != 0; else return T(f(int(x))); }
static bool in_domain(const Fn& f, int x) { return (unsigned(x) % unsigned(f.mod)) != unsigned(f.hole % f.mod); }
template<class T> static opt::option<T> part(const Fn& f, T x) { return in_domain(f, int(x)) ? opt::option<T>(app(f, x)) : opt::option<T>(); }

template<class T> void laws(Case& c) {
    opt::option<T> o = oval<T>(c), other = oval<T>(c); const opt::option<T> keep = o;
    Fn f = fn(c), g = fn(c), h = fn(c);
    T d = T(c.interesting());
    c.log("o=%s%lld f=%d,%d,%d,%d g=%d,%d,%d,%d", o ? "" : "none ", (long long)(o ? *o : T{}), f.a, f.b, f.mod, f.hole, g.a, g.b, g.mod, g.hole);
    auto F = [&](T x) { return app(f, x); }; auto G = [&](T x) { return app(g, x); };
    auto PF = [&](T x) { return part(f, x); }; auto PG = [&](T x) { return part(g, x); }; auto PH = [&](T x) { return part(h, x); };
    auto pf = [&](T x) { return in_domain(f, int(x)); }; auto pg = [&](T x) { return in_domain(g, int(x)); };
    REQUIRE_MSG(o.map([](T x) { return x; }) == o, "map(identity) is not the identity");
    REQUIRE_MSG(o.map(F).map(G) == o.map([&](T x) { return G(F(x)); }), "map does not compose");
    REQUIRE_MSG(o.and_then([](T x) { return opt::option<T>(x); }) == o, "and_then(wrap) is not the identity");
    REQUIRE_MSG(o.and_then(PF).and_then(PG) == o.and_then([&](T x) { return PF(x).and_then(PG); }), "and_then is not associative");
    REQUIRE_MSG(o.and_then(PF).and_then(PG).and_then(PH) == o.and_then([&](T x) { return PF(x).and_then([&](T y) { return PG(y).and_then(PH); }); }), "and_then is not associative");
    REQUIRE_MSG(opt::option<T>(d).and_then(PF) == PF(d), "and_then of a wrapped value is not the application");
    REQUIRE_MSG(o.map(F) == o.and_then([&](T x) { return opt::option<T>(F(x)); }), "map is not and_then(wrap)");
    REQUIRE_MSG(o.filter(pf).filter(pg) == o.filter([&](T x) { return pf(x) && pg(x); }), "filter does not compose");
    REQUIRE_MSG(o.filter(pf) == o.and_then([&](T x) { return pf(x) ? opt::option<T>(x) : opt::option<T>(); }), "filter is not the corresponding and_then");
    REQUIRE_MSG(o.filter(pf).has_value() == o.has_value_and(pf), "filter and has_value_and disagree");
    REQUIRE_MSG(o.map_or(d, F) == o.map(F).value_or(d), "map_or is not map followed by value_or");
    REQUIRE_MSG(o.map_or_else([&] { return d; }, F) == o.map_or(d, F), "map_or_else and map_or disagree");
    REQUIRE_MSG(o.or_else([&] { return other; }) == (o.has_value() ? o : other), "or_else");
    REQUIRE_MSG(o.or_else([&] { return other; }) == (o | other), "or_else and operator| disagree");
    REQUIRE_MSG(o.value_or(d) == (o.has_value() ? *o : d), "value_or");
    REQUIRE_MSG(o.value_or(d) == o.value_or_construct(d), "value_or and value_or_construct disagree");
    REQUIRE_MSG(opt::flatten(o.map(PF)) == o.and_then(PF), "flatten of map is not and_then");
    REQUIRE(o == keep);
    { opt::option<T> a = o; opt::option<T> t = a.take_if(pf); REQUIRE_MSG(t == o.filter(pf), "take_if does not return what filter returns"); REQUIRE_MSG((t | a) == o && !(t && a), "take_if lost or duplicated the value"); }
    { std::vector<T> seen; (void)o.inspect([&](T x) { seen.push_back(x); }).inspect([&](T x) { seen.push_back(x); }); REQUIRE(seen.size() == (o ? 2u : 0u)); for (T x : seen) REQUIRE(x == *o); }
    REQUIRE_MSG((opt::option<T>(o).map(F).filter(pg).and_then(PH).value_or(d)) == [&] { if (!o) return d; T x = F(*o); if (!pg(x)) return d; auto y = PH(x); return y ? *y : d; }(), "a chain of operations differs from the direct computation");
    c.nontrivial(o.has_value());
}
REG("laws int", (&laws<int>));
REG("laws bool", (&laws<bool>));
REG("laws unsigned char", (&laws<unsigned char>));
REG("laws long long", (&laws<long long>));

struct MP {
    int data; std::string text; const int cdata; opt::option<int> o; std::unique_ptr<int> u;
    int f() const { return int(unsigned(data) * 2u); }
    int& ref() { return data; }
    const std::string& cref() const { return text; }
    opt::option<int> of() const { return o; }
    bool positive() const { return data > 0; }
    std::string steal() && { return static_cast<std::string&&>(text); }
    static inline int visits = 0;
    void visit() const { ++visits; }
};
PROP("member pointers as callables") {
    bool e = c.chance(3, 4); u64 s = c.interesting(); bool inner = c.coin();
    auto mk = [&] { return MP{int(s), Ty<std::string>::make(s), int(s >> 7), inner ? opt::option<int>(int(s >> 3)) : opt::option<int>(), nullptr}; };
    opt::option<MP> o; if (e) o.emplace(mk());
    const auto& co = o; int v0 = MP::visits;
    auto a = o.map(&MP::data); static_assert(std::is_same_v<decltype(a), opt::option<int&>>); REQUIRE(a.has_value() == e && (!e || &*a == &o->data));
    auto b = co.map(&MP::text); static_assert(std::is_same_v<decltype(b), opt::option<const std::string&>>); REQUIRE(b.has_value() == e && (!e || &*b == &o->text));
    auto b2 = o.map(&MP::cdata); static_assert(std::is_same_v<decltype(b2), opt::option<const int&>>); REQUIRE(b2.has_value() == e && (!e || &*b2 == &o->cdata));
    auto d = co.map(&MP::f); static_assert(std::is_same_v<decltype(d), opt::option<int>>); REQUIRE(d.has_value() == e && (!e || *d == int(unsigned(s) * 2u)) );
    auto r = o.map(&MP::ref); static_assert(std::is_same_v<decltype(r), opt::option<int&>>); REQUIRE(r.has_value() == e && (!e || &*r == &o->data));
    auto cr = co.map(&MP::cref); static_assert(std::is_same_v<decltype(cr), opt::option<const std::string&>>); REQUIRE(cr.has_value() == e && (!e || &*cr == &o->text));
    REQUIRE(co.and_then(&MP::of) == (e && inner ? opt::option<int>(int(s >> 3)) : opt::option<int>()));
    REQUIRE(co.and_then(&MP::o) == (e && inner ? opt::option<int>(int(s >> 3)) : opt::option<int>()));
    REQUIRE(co.has_value_and(&MP::positive) == (e && int(s) > 0));
    REQUIRE(co.map_or(-7, &MP::data) == (e ? int(s) : -7));
    REQUIRE(co.map_or_else([] { return -7; }, &MP::f) == (e ? int(unsigned(s) * 2u) : -7));
    (void)co.inspect(&MP::visit); REQUIRE(MP::visits == v0 + int(e));
    REQUIRE(co.map(&MP::u).has_value() == e);
    auto st = static_cast<opt::option<MP>&&>(o).map(&MP::steal); REQUIRE(st.has_value() == e && (!e || Ty<std::string>::same(*st, s)));
    opt::option<MP> q; if (e) q.emplace(mk());
    auto t = q.take_if(&MP::positive); REQUIRE(t.has_value() == (e && int(s) > 0)); REQUIRE(q.has_value() == (e && int(s) <= 0));
    // through pointers and reference wrappers held by the option
    MP obj = mk(); opt::option<MP*> op; opt::option<std::reference_wrapper<MP>> ow; opt::option<MP&> orf; if (e) { op = &obj; ow = std::ref(obj); orf = obj; }
    REQUIRE(op.map(&MP::f) == (e ? opt::option<int>(obj.f()) : opt::option<int>()));
    REQUIRE(ow.map(&MP::f) == (e ? opt::option<int>(obj.f()) : opt::option<int>()));
    REQUIRE(orf.map(&MP::f) == (e ? opt::option<int>(obj.f()) : opt::option<int>()));
    auto pr = op.map(&MP::data); REQUIRE(pr.has_value() == e && (!e || &*pr == &obj.data));
    auto wr = ow.map(&MP::data); REQUIRE(wr.has_value() == e && (!e || &*wr == &obj.data));
    auto rr = orf.map(&MP::data); REQUIRE(rr.has_value() == e && (!e || &*rr == &obj.data));
    REQUIRE(op.has_value_and(&MP::positive) == (e && obj.positive()));
    c.nontrivial(e);
}
static int free_fn(int x) { return x ^ 5; }
static opt::option<int> free_opt(int x) { return x & 1 ? opt::option<int>(x) : opt::none; }
static bool free_pred(const int& x) { return x % 3 == 0; }
PROP("function pointers as callables") {
    bool e = c.chance(3, 4); int v = int(c.interesting());
    opt::option<int> o; if (e) o = v; const auto& co = o;
    REQUIRE(co.map(free_fn) == (e ? opt::option<int>(v ^ 5) : opt::option<int>())); REQUIRE(o.map(&free_fn) == (e ? opt::option<int>(v ^ 5) : opt::option<int>()));
    int (*fp)(int) = free_fn; REQUIRE(o.map(fp) == (e ? opt::option<int>(v ^ 5) : opt::option<int>()));
    REQUIRE(o.and_then(free_opt) == (e && (v & 1) ? opt::option<int>(v) : opt::option<int>()));
    REQUIRE(o.filter(free_pred) == (e && v % 3 == 0 ? opt::option<int>(v) : opt::option<int>()));
    REQUIRE(o.has_value_and(free_pred) == (e && v % 3 == 0)); REQUIRE(o.map_or(9, free_fn) == (e ? v ^ 5 : 9));
    REQUIRE(o.map_or_else(+[] { return 1; }, free_fn) == (e ? v ^ 5 : 1));
    auto bound = std::bind(free_fn, std::placeholders::_1); REQUIRE(o.map(bound) == (e ? opt::option<int>(v ^ 5) : opt::option<int>()));
    auto t = o.take_if(free_pred); REQUIRE(t.has_value() == (e && v % 3 == 0) && o.has_value() == (e && v % 3 != 0));
    c.nontrivial(e);
}
