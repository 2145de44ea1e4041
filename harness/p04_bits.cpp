// Values that agree with a reserved state in some of their bits and differ in others. The reserved states are read from the
// traits (set_level for every level); every other pattern of these types is a value that has to be kept.
#include "types.hpp"
#include <sys/mman.h>
#include <cerrno>
#if OPTION_USE_BUILTIN_TRAITS
namespace {
enum class Range : std::uint32_t { a, b, SENTINEL_START = 100, SENTINEL_END = 140, far = 0xffffffffu };
enum class Range64 : u64 { a, b, SENTINEL_START = 100, SENTINEL_END = 140, far = ~u64(0) };
enum class Start : std::int64_t { a = -9, b = 5, SENTINEL_START = 9223372036854775800LL };
enum class One : u64 { a, SENTINEL = 77, b = ~u64(0) };
struct NoDelete { char c; static void operator delete(void*) {} };
struct Fns { void f(); int g(int) const; char d[100]; };
using Memfn = void (Fns::*)(); using Memfn2 = int (Fns::*)(int) const; using Mem = char Fns::*; using Fn = int (*)(long);
// the first N bytes of every reserved state
template<class T, class U> const std::vector<U>& reserved() {
    static const std::vector<U> all = [] {
        std::vector<U> r; std::uintmax_t max = opt::option_traits<T>::max_level;
        for (std::uintmax_t l = 0; l < max; ++l) { alignas(T) unsigned char b[sizeof(T)] = {}; opt::option_traits<T>::set_level(reinterpret_cast<T*>(b), l); U u; std::memcpy(&u, b, sizeof u); r.push_back(u); }
        return r;
    }();
    return all;
}
// a pattern that is not reserved but shares bits with one that is
template<class U> bool close(Case& c, const std::vector<U>& res, U& out) {
    if (res.empty()) return false;
    constexpr int bits = int(sizeof(U)) * 8; U s = res[c.pick(std::uint32_t(res.size()))], m = 0; int k = int(c.pick(7)), n = 1 + int(c.pick(bits - 1)); U low = (n >= bits) ? U(~U(0)) : U((U(1) << n) - 1);
    if (c.coin()) n = bits / 2, low = U((U(1) << n) - 1);
    switch (k) {
    case 0: m = U(c.u64()) & U(~low); break;                               // agrees in the low bits
    case 1: m = U(c.u64()) & low; break;                                   // agrees in the high bits
    case 2: m = U(1) << c.pick(bits); break;                               // differs in one bit
    case 3: m = U(~low); break;
    case 4: m = (U(1) << c.pick(bits)) | (U(1) << c.pick(bits)); break;
    case 5: for (int i = 0; i < bits / 8; ++i) if (c.coin()) m |= U(U(1 + c.pick(255)) << (8 * i)); break; // agrees in some bytes
    default: out = U(c.coin() ? res[0] - 1 - c.pick(3) : res.back() + 1 + c.pick(3)); for (U x : res) if (x == out) return false; return true;
    }
    out = U(s ^ m); for (U x : res) if (x == out) return false;
    return true;
}
template<class T, class U, class Make> void keeps(Case& c, Make make) {
    using O = opt::option<T>; U u = 0; if (!close<U>(c, reserved<T, U>(), u)) { c.nontrivial(false); return; }
    auto bits = [](const T& t) { U r; std::memcpy(&r, static_cast<const void*>(std::addressof(t)), sizeof r); return r; };
    auto full = [&](const O& o, const char* how) { pbt::opaque(o); REQUIRE_MSG(o.has_value(), "the value %llx, which no reserved state equals, is taken for an empty option after %s", (unsigned long long)u, how); REQUIRE(bits(o.get()) == u); REQUIRE(o.ptr_or_null() == std::addressof(o.get())); };
    c.log("pattern %llx", (unsigned long long)u);
    { O o(make(u)); full(o, "construction"); if constexpr (std::is_copy_constructible_v<T>) { O p(o); full(p, "a copy"); O q; q = o; full(q, "copy assignment"); } O r(static_cast<O&&>(o)); full(r, "a move"); }
    { O o; o.emplace(make(u)); full(o, "emplace"); O t = o.take(); full(t, "take"); REQUIRE(!o.has_value()); o = make(u); full(o, "assignment"); o.reset(); REQUIRE(!o.has_value()); o.try_emplace(make(u)); full(o, "try_emplace"); O e; e.swap(o); full(e, "swap"); REQUIRE(!o.has_value()); }
    { O o(make(u)); pbt::opaque(o); int n = 0; for (auto& x : o) { ++n; REQUIRE(bits(x) == u); } REQUIRE(n == 1); auto m = static_cast<const O&>(o).map([&](const T& x) { return bits(x); }); REQUIRE(m.has_value() && *m == u); }
    if constexpr (opt::option_traits<O>::max_level > 0) {
        opt::option<O> n(O(make(u))); pbt::opaque(n); REQUIRE_MSG(n.has_value(), "the value %llx, which no reserved state equals, is taken for the empty outer option", (unsigned long long)u); full(*n, "nesting");
        using P = std::pair<T, int>; opt::option<P> p(P(make(u), 4)); pbt::opaque(p); REQUIRE(p.has_value() && bits(p->first) == u && p->second == 4);
    }
    c.nontrivial();
}
template<class T, class U> T bitsof(U u) { T t; static_assert(sizeof(t) >= sizeof(u)); std::memset(static_cast<void*>(&t), 0, sizeof t); std::memcpy(static_cast<void*>(&t), &u, sizeof u); return t; }
template<class T, class U> void raw(Case& c) { keeps<T, U>(c, [](U u) { return bitsof<T, U>(u); }); }
#define RAW(T, U) REG("bits of " #T, (&raw<T, U>));
RAW(int*, u64) RAW(const void*, u64) RAW(Fn, u64) RAW(Memfn, u64) RAW(Memfn2, u64) RAW(Mem, u64) RAW(double, u64) RAW(float, std::uint32_t)
RAW(Range, std::uint32_t) RAW(Range64, u64) RAW(Start, u64) RAW(One, u64)
void wrapped(Case& c) {
    keeps<std::reference_wrapper<char>, u64>(c, [](u64 u) { static char x; std::reference_wrapper<char> r(x); std::memcpy(static_cast<void*>(&r), &u, sizeof u); return r; });
}
REG("bits of reference_wrapper", wrapped);
void unique(Case& c) { keeps<std::unique_ptr<NoDelete>, u64>(c, [](u64 u) { return std::unique_ptr<NoDelete>(reinterpret_cast<NoDelete*>(u)); }); }
REG("bits of unique_ptr", unique);
// objects at chosen addresses
struct Arena {
    u64 at = 0; // the address the next allocation has to have
    std::vector<u64> pages;
    bool place(u64 a, u64 size) {
        for (u64 p = a >> 12; p <= (a + size) >> 12; ++p) {
            bool have = false; for (u64 q : pages) have |= q == p;
            if (have) continue;
            void* r = ::mmap(reinterpret_cast<void*>(p << 12), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
            if (r != reinterpret_cast<void*>(p << 12)) { if (r != MAP_FAILED) ::munmap(r, 4096); return false; }
            pages.push_back(p);
        }
        at = a; return true;
    }
    static Arena& get() { static Arena a; return a; }
};
template<class T> struct Placed {
    using value_type = T; Placed() = default; template<class U> Placed(const Placed<U>&) {}
    T* allocate(std::size_t n) { Arena& a = Arena::get(); u64 r = a.at; if (!r || n * sizeof(T) > 1024) throw std::bad_alloc(); a.at += 2048; return reinterpret_cast<T*>(r); }
    void deallocate(T*, std::size_t) {}
    bool operator==(const Placed&) const { return true; } bool operator!=(const Placed&) const { return false; }
};
// an address whose low bits are those of `low`, in one of a few fixed places of the address space
u64 address(Case& c, u64 low) {
    static const u64 place[] = {0x200100000000, 0x2a5a00000000, 0x3ffe00000000}; u64 hi = place[c.pick(3)];
    switch (c.pick(3)) { case 0: return hi | (low & 0xffffffff); case 1: return hi | 0x12340000 | (low & 0xffff); default: return hi | 0x77777000 | (low & 0xff); }
}
template<class O, class F> void at_address(Case& c, u64 low, F f) {
    u64 a = address(c, low); if (!Arena::get().place(a, 8192)) { c.nontrivial(false); return; }
    c.log("address %llx", (unsigned long long)a); f(a); c.nontrivial();
}
using PV = std::vector<char, Placed<char>>; using PS = std::basic_string<char, std::char_traits<char>, Placed<char>>;
template<class B> void buffer(Case& c) {
    using O = opt::option<B>; auto& res = reserved<B, u64>(); u64 low = res.empty() ? 0 : res[c.pick(std::uint32_t(res.size()))]; std::size_t n = 20 + c.pick(200); char x = char('a' + c.pick(26));
    at_address<O>(c, low, [&](u64 a) {
        auto full = [&](const O& o, const char* how) { pbt::opaque(o); REQUIRE_MSG(o.has_value(), "a value whose buffer is at %llx is taken for an empty option after %s", (unsigned long long)a, how); REQUIRE(o->size() == n && (*o)[0] == x && (*o)[n - 1] == x); };
        O o(std::in_place, n, x); REQUIRE(reinterpret_cast<u64>(o.get_unchecked().data()) == a); full(o, "construction"); O p(static_cast<O&&>(o)); full(p, "a move"); O q; q = static_cast<O&&>(p); full(q, "move assignment"); O s; s.swap(q); full(s, "swap"); opt::option<O> w(static_cast<O&&>(s)); pbt::opaque(w); REQUIRE(w.has_value()); full(*w, "nesting");
        Arena::get().at = a; O e; e.emplace(n, x); full(e, "emplace"); Arena::get().at = a + 4096; O d(e); full(d, "a copy"); w = opt::none; pbt::opaque(w); REQUIRE(!w.has_value()); w.emplace(); pbt::opaque(w); REQUIRE(w.has_value() && !w->has_value());
    });
}
REG("buffer address of a vector", buffer<PV>); REG("buffer address of a string", buffer<PS>);
void referred(Case& c) {
    at_address<int>(c, c.pick(400), [&](u64 a) {
        char& r = *reinterpret_cast<char*>(a); r = 7; using R = opt::option<char&>;
        R o(r); pbt::opaque(o); REQUIRE_MSG(o.has_value() && &*o == &r, "a reference to %llx is taken for an empty option", (unsigned long long)a); opt::option<R> n(o); pbt::opaque(n); REQUIRE_MSG(n.has_value(), "an option of a reference to %llx is taken for an empty outer option", (unsigned long long)a); REQUIRE(n->has_value() && &**n == &r);
        opt::option<opt::option<R>> nn(n); pbt::opaque(nn); REQUIRE(nn.has_value() && nn->has_value() && &***nn == &r); n = R(); pbt::opaque(n); REQUIRE(n.has_value() && !n->has_value()); n = opt::none; pbt::opaque(n); REQUIRE(!n.has_value()); n.emplace(r); pbt::opaque(n); REQUIRE(n.has_value() && &**n == &r); R back = *n; REQUIRE(&*back == &r);
        opt::option<std::reference_wrapper<char>> w(r); pbt::opaque(w); REQUIRE_MSG(w.has_value() && &w->get() == &r, "a reference_wrapper of %llx is taken for an empty option", (unsigned long long)a); opt::option<char*> p(&r); pbt::opaque(p); REQUIRE(p.has_value() && *p == &r);
        opt::option<std::unique_ptr<NoDelete>> u(std::unique_ptr<NoDelete>(reinterpret_cast<NoDelete*>(&r))); pbt::opaque(u); REQUIRE(u.has_value() && u->get() == reinterpret_cast<NoDelete*>(&r));
        opt::option<R> m; m = R(r); pbt::opaque(m); REQUIRE(m.has_value() && &**m == &r); opt::option<const char&> k = o; REQUIRE(k.has_value() && &*k == &r);
    });
}
REG("address of the object referred to", referred);
void view(Case& c) {
    using V = std::string_view; using O = opt::option<V>; alignas(V) unsigned char b[sizeof(V)] = {}; opt::option_traits<V>::set_level(reinterpret_cast<V*>(b), c.pick(255)); V e; std::memcpy(static_cast<void*>(&e), b, sizeof e); u64 low = reinterpret_cast<u64>(e.data());
    std::vector<u64> res; for (std::uintmax_t l = 0; l < opt::option_traits<V>::max_level; ++l) { opt::option_traits<V>::set_level(reinterpret_cast<V*>(b), l); std::memcpy(static_cast<void*>(&e), b, sizeof e); res.push_back(reinterpret_cast<u64>(e.data())); }
    (void)low; u64 u = 0; if (!close<u64>(c, res, u)) { c.nontrivial(false); return; }
    V v(reinterpret_cast<const char*>(u), c.pick(3)); auto full = [&](const O& o, const char* how) { pbt::opaque(o); REQUIRE_MSG(o.has_value(), "a string_view that starts at %llx is taken for an empty option after %s", (unsigned long long)u, how); REQUIRE(o->data() == v.data() && o->size() == v.size()); };
    c.log("view of %llx", (unsigned long long)u); O o(v); full(o, "construction"); O p; p = v; full(p, "assignment"); O q; q.emplace(v.data(), v.size()); full(q, "emplace"); opt::option<O> n(o); pbt::opaque(n); REQUIRE(n.has_value()); full(*n, "nesting"); n = O(); REQUIRE(n.has_value() && !n->has_value()); n->emplace(v); full(*n, "emplace inside"); c.nontrivial();
}
REG("bits of string_view", view);
}
#endif
