// User-provided traits that check how they are called. A generated class keeps a mark in its storage: LIVE while it holds
// a value, LEV + code of the level once a level was written. Classes with user-provided special members also register
// their addresses, so that storage without a value and without a written level is recognised whatever its bytes are.
#pragma once
#include "p05_common.hpp"
#include "p03_common.hpp"

// how many registered objects an option that holds an option accounts for depends on the value: not counted
template<class U> inline constexpr int live_per_value<opt::option<U>> = live_per_value<U> == 0 ? 0 : -1000000;

namespace ut {
constexpr u64 LIVE = 0x11fe5a5a11fe5a5aull, DEAD = 0xdead0baddead0badull, LEV = 0x1e7e1000ull << 32;
struct Log { long gets = 0, sets = 0; std::uintmax_t last = 0; };
inline Log log;
struct Levels { static constexpr int N = 2048; const void* p[N]; int n = 0; bool full = false; };
inline Levels lv;
inline int find(const void* p) { for (int i = lv.n; i-- > 0;) if (lv.p[i] == p) return i; return -1; }
inline void forget(const void* p) { int i = find(p); if (i >= 0) lv.p[i] = lv.p[--lv.n]; }
inline void written(const void* p) { if (find(p) >= 0) return; if (lv.n < Levels::N) lv.p[lv.n++] = p; else lv.full = true; }
inline void reset() { lv.n = 0; lv.full = false; log = Log{}; }
// records a failure from a function that must not throw
template<class... A> void bad(const char* f, A... a) noexcept { try { pbt::fail("p25", 0, f, a...); } catch (...) {} }
template<class U> u64 mark(const U* p) { u64 x; std::memcpy(&x, reinterpret_cast<const char*>(p) + U::Traits::offset, 8); return x; }

// I: label, offset of the mark, end of the last member, M levels, tracked, permutation of the levels, how levels of values are reported
template<class U, class I> std::uintmax_t get(const U* p) noexcept {
    ++log.gets; u64 x; std::memcpy(&x, reinterpret_cast<const char*>(p) + I::offset(), 8);
    const bool lev = (x ^ I::key) - LEV < I::M; const bool value = I::is_value(x);
    if (I::tracked) {
        if (reg::find(p) >= 0) { if (!value) bad("%s: the mark of a live object was overwritten", I::label()); }
        else if (find(p) < 0) { if (!lv.full) bad("%s: get_level was called over storage that holds neither a value nor a written level", I::label()); }
        else if (!lev) bad("%s: a written level was overwritten", I::label());
    } else if (!lev && !value) bad("%s: get_level was called over storage that holds neither a value nor a written level", I::label());
    if (lev) return I::M - 1 - ((x ^ I::key) - LEV);
    return I::style == 0 ? std::uintmax_t(-1) : I::style == 1 ? std::uintmax_t(I::M) : std::uintmax_t(I::M) + ((x ^ reinterpret_cast<u64>(p)) >> 3) % 5;
}
template<class U, class I> void set(U* p, std::uintmax_t l) noexcept {
    ++log.sets; log.last = l;
    if (l >= I::M) bad("%s: set_level was called with level %llu, max_level is %llu", I::label(), (unsigned long long)l, (unsigned long long)I::M);
    if (I::tracked) { if (reg::find(p) >= 0) bad("%s: set_level was called over a live object", I::label()); written(p); }
    if (I::clobber) std::memset(static_cast<void*>(p), 0xee, I::end());
    u64 x = (LEV + (I::M - 1 - l)) ^ I::key; std::memcpy(reinterpret_cast<char*>(p) + I::offset(), &x, 8);
}
inline void start(const void* p) { forget(p); }            // a constructor begins: no level is there any more
inline void born(const void* p) { forget(p); reg::born(p); }
inline void scribble(void* p, std::size_t o) { u64 d = DEAD; std::memcpy(static_cast<char*>(p) + o, &d, 8); pbt::opaque(d); asm volatile("" : : "r"(p) : "memory"); }

template<void (*F)(Case&)> void fresh(Case& c) { reset(); F(c); }

// the traits of a composite type used directly: every level comes back, and at most one user trait is involved
template<class T> void direct(Case& c) {
    reset(); reg::reset(); using Tr = opt::option_traits<T>; constexpr std::uintmax_t M = Tr::max_level;
    if constexpr (M > 0) {
        static const unsigned char fills[] = {0, 0xff, 0x11, 0xa5}; alignas(T) unsigned char buf[sizeof(T)]; std::memset(buf, fills[c.pick(4)], sizeof buf); pbt::opaque(buf); T* p = reinterpret_cast<T*>(buf);
        int n = 1 + int(c.pick(6)); bool alive = false;
        for (int i = 0; i < n; ++i) {
            if (!alive && c.pick(4) == 0) { u64 s = c.interesting(); c.log("value %llx", (unsigned long long)s); ::new (static_cast<void*>(buf)) T(Ty<T>::make(s)); alive = true; pbt::opaque(buf); std::uintmax_t l = Tr::get_level(p); REQUIRE_MSG(l >= M, "%s: a value is reported as level %llu of %llu", Ty<T>::name(), (unsigned long long)l, (unsigned long long)M); REQUIRE(Ty<T>::same(*p, s)); continue; }
            if (alive) { p->~T(); alive = false; }
            std::uintmax_t l = c.coin() ? c.pick(6) : c.coin() ? M - 1 - c.pick(6) : c.u64(); l %= M; long before = log.sets;
            c.log("level %llu of %llu", (unsigned long long)l, (unsigned long long)M); Tr::set_level(p, l); pbt::opaque(buf); REQUIRE_MSG(log.sets - before <= 1, "%s: writing one level called user traits %ld times", Ty<T>::name(), log.sets - before);
            REQUIRE_MSG(Tr::get_level(p) == l, "%s: level %llu of %llu was written, %llu is read", Ty<T>::name(), (unsigned long long)l, (unsigned long long)M, (unsigned long long)Tr::get_level(p));
        }
        if (alive) p->~T(); c.nontrivial(n > 1);
    }
}
// options that hold no object of the user's type never call its traits
template<class U> void indirect(Case& c) {
    reset(); reg::reset();
    { U a(Ty<U>::make(c.interesting())), b(Ty<U>::make(c.interesting())); Log before = log;
      opt::option<U&> r, q(a); opt::option<const U&> cr(q); opt::option<U*> p, p2(&a); opt::option<std::reference_wrapper<U>> w, w2(std::ref(a)); opt::option<opt::option<U&>> rr, rs(q);
      int n = 1 + int(c.pick(6)); for (int i = 0; i < n; ++i) switch (c.pick(6)) {
        case 0: r = b; REQUIRE(&r.get() == &b); break; case 1: r.swap(q); break; case 2: r.reset(); REQUIRE(!r); break; case 3: p = p2; REQUIRE(p.has_value() && p.get() == &a); p.reset(); REQUIRE(!p); break;
        case 4: w = w2; REQUIRE(&w->get() == &a); w.reset(); REQUIRE(!w); break; default: rr = rs; REQUIRE(rr.has_value()); rr = opt::none; REQUIRE(!rr); break; }
      REQUIRE(&cr.get() == &a); REQUIRE_MSG(log.gets == before.gets && log.sets == before.sets, "%s: options of references and pointers called the traits of the referenced type", Ty<U>::name()); c.nontrivial(n > 1); }
}
// emptiness is what the user's query says, also when the bytes of the value are changed in place (for classes without special members)
template<class U, class I, int K> struct InPlace {
    template<int J> static void expect(const nest_t<U, J>& x, int level, const char* what) {   // the option at depth J is empty exactly at level J - 1
        pbt::opaque(x); REQUIRE_MSG(x.has_value() == (level != J - 1), "%s: after %s level %d: the option around %d options is %s", I::label(), what, level, J - 1, x.has_value() ? "full" : "empty");
        if constexpr (J > 1) if (level != J - 1) expect<J - 1>(*x, level, what);
    }
    static void run(Case& c) {
        if constexpr (K > 1 && !OPTION_USE_BUILTIN_TRAITS) return;   // nested options use flags then
        else {
        reset(); reg::reset(); nest_t<U, K> o; int level = K - 1; expect<K>(o, level, "construction"); int n = 2 + int(c.pick(10));
        U* p = reinterpret_cast<U*>(&o);     // checked below: the options take no more space than U
        REQUIRE_MSG(sizeof o == sizeof(U), "%s: %d options around it take %zu bytes instead of %zu", I::label(), K, sizeof o, sizeof(U));
        for (int i = 0; i < n; ++i) {
            if (c.coin()) { U t(Ty<U>::make(c.interesting())); std::memcpy(static_cast<void*>(p), static_cast<const void*>(&t), sizeof t); level = -1; c.log("value"); }
            else { level = int(c.pick(K)); u64 x = (LEV + (I::M - 1 - u64(level))) ^ I::key; std::memcpy(reinterpret_cast<char*>(p) + I::offset(), &x, 8); c.log("level %d", level); }
            expect<K>(o, level, "writing"); nest_t<U, K> cp(o); expect<K>(cp, level, "copying an option at"); nest_t<U, K> as; as = o; expect<K>(as, level, "assigning an option at"); as = static_cast<nest_t<U, K>&&>(cp); expect<K>(as, level, "move-assigning an option at");
        }
        c.nontrivial();
        }
    }
};
}
#define UT_REG(label, ...) REG(label " " #__VA_ARGS__, (&ut::fresh<&__VA_ARGS__>))
