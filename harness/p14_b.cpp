#include "p14_common.hpp"
using upi = std::unique_ptr<int>;
#define VA(...) REG("variant " #__VA_ARGS__, (&variants<__VA_ARGS__>));
VA(int, float) VA(std::string, int, bool) VA(int, int, std::string) VA(std::string, Bomb, double) VA(opt::option<bool>, bool, upi) VA(bool) VA(unsigned char, short, int, long long, float, double, std::string, E8, bool)
#define TU(...) REG("get " #__VA_ARGS__, (&tuples<__VA_ARGS__>));
TU(std::pair<int, float>) TU(std::pair<bool, std::string>) TU(std::tuple<int>) TU(std::tuple<int, upi, bool>) TU(std::tuple<int, int, std::string>) TU(const std::pair<int, std::string>) TU(std::pair<int, std::string>&) TU(const std::pair<int, bool>&) TU(std::array<int, 3>) TU(std::array<std::string, 2>) TU(std::pair<TrackedN<1>, TrackedN<2>>) TU(std::tuple<TrackedN<1>, opt::option<bool>>) TU(std::pair<const int, bool>)
// tuple elements that are references are referred to, not rebound
PROP("get of a tuple of references") {
    int t[3] = {1, 2, 3}; bool e = c.coin(); opt::option<std::tuple<int&, const int&, int>> o; if (e) o.emplace(t[0], t[1], 7);
    auto a = opt::get<0>(o); static_assert(std::is_same_v<decltype(a), opt::option<int&>>); REQUIRE(a.has_value() == e); if (e) { REQUIRE(&a.get() == &t[0]); *a = 9; REQUIRE(t[0] == 9); }
    auto b = opt::get<1>(std::as_const(o)); static_assert(std::is_same_v<decltype(b), opt::option<const int&>>); REQUIRE(b.has_value() == e); if (e) REQUIRE(&b.get() == &t[1]);
    auto d = opt::get<2>(o); REQUIRE(d.has_value() == e); if (e) { *d = 5; REQUIRE(std::get<2>(*o) == 5); } c.nontrivial(e);
}
// the user's own tuple-like type, found by argument-dependent lookup
namespace mine { struct Rec { int x = 1; std::string y = "y"; }; template<std::size_t I, class R, std::enable_if_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<R>>, Rec>, int> = 0> auto&& get(R&& r) { if constexpr (I == 0) return r.x; else return r.y; } }
PROP("get through argument-dependent lookup") { bool e = c.coin(); opt::option<mine::Rec> o; if (e) o.emplace(); auto a = opt::get<0>(o); auto b = opt::get<1>(o); static_assert(std::is_same_v<decltype(a), opt::option<int&>> && std::is_same_v<decltype(b), opt::option<std::string&>>); REQUIRE(a.has_value() == e && b.has_value() == e); if (e) { REQUIRE(&a.get() == &o->x && &b.get() == &o->y); } c.nontrivial(e); }
PROP("variant inside an option") {
    u64 s = c.interesting(); opt::option<std::variant<int, float, std::string>> o; unsigned k = c.pick(4); if (k == 1) o = int(s); if (k == 2) o = Ty<float>::make(s); if (k == 3) o = Ty<std::string>::make(s);
    if (k == 0 || k == 1) { auto r = opt::get<int>(o); REQUIRE(r.has_value() == (k == 1)); if (k) REQUIRE(&*r == &std::get<0>(*o)); } if (k == 0 || k == 3) { auto r = opt::get<2>(std::as_const(o)); REQUIRE(r.has_value() == (k == 3)); if (k) REQUIRE(&*r == &std::get<2>(*o)); } c.nontrivial(k > 0);
}
template<class T> void nullable(Case& c) {
    T t = Ty<T>::make(c.interesting()); T* p = c.coin() ? &t : nullptr; const T* q = p; opt::option<T&> r = opt::from_nullable(p); opt::option<const T&> k = opt::from_nullable(q); pbt::opaque(r); pbt::opaque(k);
    REQUIRE_MSG(r.has_value() == (p != nullptr) && k.has_value() == (p != nullptr), "from_nullable of %s pointer is %d", p ? "a non-null" : "the null", int(r.has_value())); if (p) REQUIRE_MSG(&r.get() == &t && &k.get() == &t, "from_nullable refers to another object");
    REQUIRE(r.ptr_or_null() == p && k.ptr_or_null() == q); static_assert(noexcept(opt::from_nullable(p)) && std::is_same_v<decltype(opt::from_nullable(q)), opt::option<const T&>>); c.nontrivial(p != nullptr);
}
REG("from_nullable int", (&nullable<int>)); REG("from_nullable string", (&nullable<std::string>)); REG("from_nullable option", (&nullable<opt::option<bool>>)); REG("from_nullable pointer", (&nullable<int*>));
