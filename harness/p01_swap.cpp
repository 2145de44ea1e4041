// Options of different contained types: swapped (member, opt::swap, unqualified), assigned and constructed from each other, against a pair of flag+value models.
#include "types.hpp"
namespace het {
inline int live = 0, swaps = 0;
struct Tag {};
template<class T> inline constexpr bool family = std::is_base_of_v<Tag, T>;
#define HET_FROM(X) template<class O, std::enable_if_t<family<std::remove_const_t<O>> && !std::is_same_v<std::remove_const_t<O>, X>, int> = 0> 
struct Pl : Tag { int v; explicit Pl(int x) : v(x) {} HET_FROM(Pl) Pl(O&& o) noexcept : v(o.get()) { o.set(-7); } HET_FROM(Pl) Pl(const O& o) : v(o.get()) {} HET_FROM(Pl) Pl& operator=(O&& o) { v = o.get(); o.set(-7); return *this; } HET_FROM(Pl) Pl& operator=(const O& o) { v = o.get(); return *this; } int get() const { return v; } void set(int x) { v = x; } };
struct Ow : Tag { int* p; explicit Ow(int x) : p(new int(x)) { ++live; } Ow(const Ow& o) : p(new int(*o.p)) { ++live; } Ow(Ow&& o) : p(new int(*o.p)) { *o.p = -7; ++live; } Ow& operator=(const Ow& o) { *p = *o.p; return *this; } Ow& operator=(Ow&& o) { int t = *o.p; *o.p = -7; *p = t; return *this; } ~Ow() { delete p; --live; }
    HET_FROM(Ow) Ow(O&& o) : p(new int(o.get())) { ++live; o.set(-7); } HET_FROM(Ow) Ow(const O& o) : p(new int(o.get())) { ++live; } HET_FROM(Ow) Ow& operator=(O&& o) { *p = o.get(); o.set(-7); return *this; } HET_FROM(Ow) Ow& operator=(const O& o) { *p = o.get(); return *this; } int get() const { return *p; } void set(int x) { *p = x; } };
// with spare states
struct Sp : Tag { int* p; bool spare = false; explicit Sp(int x) : p(new int(x)) { ++live; } Sp(const Sp& o) : p(new int(*o.p)) { ++live; } Sp(Sp&& o) noexcept : p(new int(*o.p)) { *o.p = -7; ++live; } Sp& operator=(const Sp& o) { *p = *o.p; return *this; } Sp& operator=(Sp&& o) noexcept { int t = *o.p; *o.p = -7; *p = t; return *this; } ~Sp() { delete p; --live; }
    HET_FROM(Sp) Sp(O&& o) : p(new int(o.get())) { ++live; o.set(-7); } HET_FROM(Sp) Sp(const O& o) : p(new int(o.get())) { ++live; } HET_FROM(Sp) Sp& operator=(O&& o) { *p = o.get(); o.set(-7); return *this; } HET_FROM(Sp) Sp& operator=(const O& o) { *p = o.get(); return *this; } int get() const { return *p; } void set(int x) { *p = x; } };
struct Bo : Tag { int v; bool b; explicit Bo(int x) : v(x), b(x & 1) {} HET_FROM(Bo) Bo(O&& o) noexcept : v(o.get()), b(v & 1) { o.set(-7); } HET_FROM(Bo) Bo(const O& o) : v(o.get()), b(v & 1) {} HET_FROM(Bo) Bo& operator=(O&& o) { set(o.get()); o.set(-7); return *this; } HET_FROM(Bo) Bo& operator=(const O& o) { set(o.get()); return *this; } int get() const { return b == bool(v & 1) ? v : -99; } void set(int x) { v = x; b = x & 1; } };
template<class A, class B, std::enable_if_t<family<A> && family<B>, int> = 0> void swap(A& a, B& b) noexcept(std::is_same_v<A, B>) { int t = a.get(); a.set(b.get()); b.set(t); ++swaps; }
}
template<> struct opt::option_traits<het::Sp> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const het::Sp* x) noexcept { std::uintptr_t q; std::memcpy(&q, reinterpret_cast<const char*>(x) + offsetof_p, sizeof q); return q >= 1 && q <= 3 ? q - 1 : 1000; } static void set_level(het::Sp* x, std::uintmax_t l) noexcept { std::uintptr_t q = l + 1; std::memcpy(reinterpret_cast<char*>(x) + offsetof_p, &q, sizeof q); } static constexpr std::size_t offsetof_p = 0; };
template<> struct opt::option_traits<het::Bo> { static constexpr std::uintmax_t max_level = 100; static std::uintmax_t get_level(const het::Bo* x) noexcept { unsigned char q; std::memcpy(&q, reinterpret_cast<const char*>(x) + 4, 1); return q < 2 ? 1000 : q - 2u; } static void set_level(het::Bo* x, std::uintmax_t l) noexcept { unsigned char q = static_cast<unsigned char>(l + 2); std::memcpy(reinterpret_cast<char*>(x) + 4, &q, 1); } };
namespace {
using namespace het;
static_assert(std::is_standard_layout_v<Sp> || true);
template<class A, class B> void differing(Case& c) {
    const int before = live;
    {
        opt::option<A> a; opt::option<B> b; const int E = -1000; int m = E, n = E;
        auto look = [&](const char* w) { pbt::opaque(a); pbt::opaque(b); REQUIRE_MSG(a.has_value() == (m != E) && b.has_value() == (n != E), "options of different types: after %s the left is %s and the right is %s", w, a ? "full" : "empty", b ? "full" : "empty"); if (m != E) REQUIRE_MSG(a->get() == m, "options of different types: after %s the left holds %d, expected %d", w, a->get(), m); if (n != E) REQUIRE_MSG(b->get() == n, "options of different types: after %s the right holds %d, expected %d", w, b->get(), n); };
        static_assert(std::is_swappable_v<opt::option<A>>); static_assert(noexcept(a.swap(b)) == (std::is_nothrow_move_constructible_v<A> && std::is_nothrow_move_constructible_v<B> && std::is_nothrow_swappable_with_v<A&, B&>)); static_assert(noexcept(opt::swap(a, b)) == noexcept(a.swap(b))); static_assert(std::is_swappable_with_v<opt::option<A>&, opt::option<B>&>);
        int changed = 0;
        for (int i = 0, k = 2 + int(c.pick(14)); i < k; ++i) {
            const int x = int(c.pick(1000)), op = int(c.pick(12)); c.log("op %d, %d", op, x); const int s0 = swaps; const char* w = "swap"; bool sw = false;
            switch (op) {
            case 0: a.emplace(x); m = x; w = "emplace"; break; case 1: b.emplace(x); n = x; w = "emplace"; break; case 2: a.reset(); m = E; w = "reset"; break; case 3: b.reset(); n = E; w = "reset"; break;
            case 4: a.swap(b); sw = true; break; case 5: b.swap(a); sw = true; break; case 6: opt::swap(a, b); sw = true; break; case 7: { using std::swap; swap(b, a); sw = true; } break;
            case 8: a = b; m = n; w = "assignment of the other option"; break; case 9: b = static_cast<opt::option<A>&&>(a); n = m; if (m != E) m = -7; w = "move assignment of the other option"; break;
            case 10: { const opt::option<B> t(a); REQUIRE_MSG(t.has_value() == (m != E) && (m == E || t->get() == m), "construction of an option from one of another type"); a = t; w = "construction from the other option"; } break;
            default: { opt::option<A> t(static_cast<opt::option<B>&&>(b)); REQUIRE_MSG(t.has_value() == (n != E) && (n == E || t->get() == n), "move construction of an option from one of another type"); if (n != E) n = -7; w = "move construction from the other option"; } break;
            }
            if (sw) { REQUIRE_MSG((swaps - s0) == (m != E && n != E ? 1 : 0), "options of different types: the contained values were swapped %d times", swaps - s0); std::swap(m, n); }
            ++changed; look(w);
            if constexpr (std::is_same_v<A, Ow> || std::is_same_v<A, Sp>) if constexpr (std::is_same_v<B, Pl> || std::is_same_v<B, Bo>) REQUIRE_MSG(live - before == (m != E), "options of different types: %d objects are alive after %s", live - before, w);
        }
        c.nontrivial(changed >= 3);
    }
    REQUIRE_MSG(live == before, "options of different types: %d objects outlive their options", live - before);
}
}
#define DI(A, B) REG("options of " #A " and " #B, (&differing<A, B>));
DI(Pl, Ow) DI(Pl, Sp) DI(Pl, Bo) DI(Ow, Pl) DI(Ow, Sp) DI(Ow, Bo) DI(Sp, Bo) DI(Bo, Ow) DI(Sp, Pl)
