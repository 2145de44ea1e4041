#include "p15_common.hpp"
#define RM(...) REG("references to " #__VA_ARGS__, (&RefMachine<__VA_ARGS__>::run));
struct Der : Poly { u64 extra; explicit Der(u64 x) : Poly(x), extra(~x) {} u64 get() const override { return extra; } };
template<> struct Ty<Der> { static Der make(u64 s) { return Der(s); } static bool same(const Der& v, u64 s) { return v.v == s && v.get() == ~s; } static const char* name() { return "Der"; } };
struct Second { int pad[5]; }; struct Multi : Second, AggIF { int z; Multi() {} };
template<> struct Ty<Multi> { static Multi make(u64 s) { Multi m; m.i = int(s); m.f = 1; m.z = int(mix(s)); for (int& p : m.pad) p = 3; return m; } static bool same(const Multi& m, u64 s) { return m.i == int(s) && m.f == 1 && m.z == int(mix(s)) && m.pad[4] == 3; } static const char* name() { return "Multi"; } };
RM(int) RM(std::string) RM(TrackedN<1>) RM(Der, Poly) RM(Multi, AggIF) RM(Multi, Second) RM(double) RM(bool) RM(std::vector<int>) RM(AggSB) RM(int*) RM(std::unique_ptr<int>)
// sources are never written, copied or destroyed: an object whose every special member fails
struct Untouchable { int v = 0; Untouchable() = default; Untouchable(const Untouchable&) = delete; Untouchable& operator=(const Untouchable&) = delete; void operator&() const = delete; };
PROP("references to objects that can be neither copied, assigned nor addressed with &") {
    Untouchable x[3]; opt::option<Untouchable&> a, b; int ma = -1, mb = -1; int n = 1 + int(c.pick(12));
    for (int k = 0; k < n; ++k) {
        int i = int(c.pick(3));
        switch (c.pick(7)) { case 0: a = x[i]; ma = i; break; case 1: b.emplace(x[i]); mb = i; break; case 2: a.swap(b); std::swap(ma, mb); break; case 3: a = b; ma = mb; break; case 4: b = a.take(); mb = ma; ma = -1; break; case 5: a.reset(); ma = -1; break; default: opt::option<const Untouchable&> t = b; REQUIRE(t.has_value() == (mb >= 0)); if (t) REQUIRE(std::addressof(*t) == std::addressof(x[mb])); }
        REQUIRE(a.has_value() == (ma >= 0) && b.has_value() == (mb >= 0)); if (a) REQUIRE(std::addressof(a.get()) == std::addressof(x[ma])); if (b) REQUIRE(std::addressof(b.get()) == std::addressof(x[mb]));
    }
    c.nontrivial(n > 2);
}
template<class T, class U> constexpr bool binds = std::is_constructible_v<opt::option<T>, U> && std::is_assignable_v<opt::option<T>&, U>;
template<class T, class U> constexpr bool never = !std::is_constructible_v<opt::option<T>, U> && !std::is_assignable_v<opt::option<T>&, U>;
static_assert(binds<int&, int&> && binds<const int&, int&> && binds<const int&, const int&> && binds<Poly&, Der&> && binds<const Poly&, const Der&> && binds<int&, std::reference_wrapper<int>>);
static_assert(never<int&, const int&> && never<int&, int> && never<const int&, int> && never<const int&, double&> && never<Der&, Poly&> && never<int&, double&> && never<int&, int*> && never<int&, const opt::option<const int&>&> && never<Der&, opt::option<Poly&>>, "a reference option never binds to a temporary or an unrelated object");
static_assert(binds<const int&, opt::option<int&>> && binds<Poly&, opt::option<Der&>> && binds<Poly&, opt::option<Der&>&> && binds<const Poly&, const opt::option<Der&>&>);
static_assert(std::is_nothrow_copy_constructible_v<opt::option<std::string&>> && std::is_nothrow_copy_assignable_v<opt::option<std::string&>> && std::is_trivially_copyable_v<opt::option<std::string&>> && std::is_nothrow_default_constructible_v<opt::option<int&>>);
PROP("references to functions and arrays") { static int arr[3]; int i = int(c.pick(2)); opt::option<int(&)[3]> a; if (i) a = arr; REQUIRE(a.has_value() == (i == 1)); if (a) { REQUIRE(&a.get() == &arr); (*a)[1] = 5; REQUIRE(arr[1] == 5); } opt::option<int(&)[3]> b = a; a.reset(); REQUIRE(b.has_value() == (i == 1)); c.nontrivial(i); }
PROP("option of reference nested in containers and structures") {
    int t[4] = {0, 1, 2, 3}; struct S { opt::option<int&> r; int v; }; std::vector<S> v; std::vector<int> m; int n = 1 + int(c.pick(12));
    for (int k = 0; k < n; ++k) { int i = int(c.pick(5)); S s{{}, k}; if (i < 4) s.r = t[i]; v.push_back(s); m.push_back(i < 4 ? i : -1); if (c.coin() && v.size() > 1) { std::size_t x = c.pick(std::uint32_t(v.size())); std::swap(v[x], v.back()); std::swap(m[x], m.back()); } }
    for (std::size_t k = 0; k < v.size(); ++k) { REQUIRE(v[k].r.has_value() == (m[k] >= 0)); if (m[k] >= 0) REQUIRE(&*v[k].r == &t[m[k]]); } for (int k = 0; k < 4; ++k) REQUIRE(t[k] == k); c.nontrivial(n > 1);
}
