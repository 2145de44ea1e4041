// Families of contained types with: make(spec) building a legitimate value from 64 bits,
// same(value, spec) deciding bit-exact equality with make(spec), name().
#pragma once
#include <opt/option.hpp>
#include "pbt.hpp"
#include <array>
#include <complex>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

using pbt::Case;
using u64 = std::uint64_t;

inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
template<class T> u64 bits_of(const T& v) { static_assert(sizeof(T) <= 8); u64 r = 0; std::memcpy(&r, static_cast<const void*>(&v), sizeof(T)); return r; }
template<class T> T from_bits(u64 b) { T r; std::memcpy(static_cast<void*>(&r), &b, sizeof(T)); return r; }

// ---------------------------------------------------------------- object registry
// Every instrumented object registers its address; misuse fails the case.
namespace reg {
struct Entry { const void* p; u64 id; };
struct State {
    static constexpr int N = 512;
    Entry live[N]; int n = 0;
    long ctor = 0, dtor = 0, copies = 0, moves = 0, copy_assign = 0, move_assign = 0, accesses = 0, value_ctor = 0;
    long throw_in = -1; // counts down on throwing points; 0 throws
    long points = 0;
    bool enabled = true;
};
inline State& st() { static State s; return s; }
inline void reset() { st() = State{}; }
inline int find(const void* p) { State& s = st(); for (int i = s.n; i-- > 0;) if (s.live[i].p == p) return i; return -1; }
inline void born(const void* p) { State& s = st(); if (find(p) >= 0) FAIL("an object was constructed over a live object"); if (s.n < State::N) s.live[s.n++] = {p, 0}; ++s.ctor; }
inline void died(const void* p) noexcept(false) { State& s = st(); int i = find(p); if (i < 0) { FAIL("an object that is not alive was destroyed"); } s.live[i] = s.live[--s.n]; ++s.dtor; }
inline void used(const void* p) { ++st().accesses; if (find(p) < 0) FAIL("an object that is not alive was used"); }
inline int live() { return st().n; }
struct boom { int code; };
inline void point() { State& s = st(); ++s.points; if (s.throw_in >= 0 && s.throw_in-- == 0) throw boom{int(s.points)}; }
}

constexpr u64 MOVED = 0xdeadbeefdeadbeefull;

// Fully instrumented type. Flags select which members may throw / exist.
template<int Tag, bool Throwing = false, bool Copyable = true, bool Movable = true>
struct Tracked {
    u64 v;
    explicit Tracked(u64 x) : v(x) { if (Throwing) reg::point(); reg::born(this); ++reg::st().value_ctor; }
    Tracked(const Tracked& o) noexcept(!Throwing) : v((o.check(), o.v)) { static_assert(Copyable); if (Throwing) reg::point(); reg::born(this); ++reg::st().copies; }
    Tracked(Tracked&& o) noexcept(!Throwing) : v((o.check(), o.v)) { if (Throwing) reg::point(); reg::born(this); o.v = MOVED; ++reg::st().moves; }
    Tracked& operator=(const Tracked& o) noexcept(!Throwing) { check(); o.check(); if (Throwing) reg::point(); v = o.v; ++reg::st().copy_assign; return *this; }
    Tracked& operator=(Tracked&& o) noexcept(!Throwing) { check(); o.check(); if (Throwing) reg::point(); v = o.v; if (&o != this) o.v = MOVED; ++reg::st().move_assign; return *this; }
    ~Tracked() noexcept(false) { reg::died(this); v = 0xdddddddddddddddd; }
    void check() const { reg::used(this); }
    friend bool operator==(const Tracked& a, const Tracked& b) { a.check(); b.check(); return a.v == b.v; }
    friend bool operator<(const Tracked& a, const Tracked& b) { a.check(); b.check(); return a.v < b.v; }
};
// noexcept(false) destructors would change the nothrow traits of everything: the registry aborts the case
// through pbt::fail, which records the failure before throwing, so terminate() still reports it.
template<int Tag, bool Throwing = false>
struct TrackedN {
    u64 v;
    explicit TrackedN(u64 x) noexcept(!Throwing) : v(x) { if (Throwing) reg::point(); reg::born(this); ++reg::st().value_ctor; }
    TrackedN(const TrackedN& o) noexcept(!Throwing) : v((o.check(), o.v)) { if (Throwing) reg::point(); reg::born(this); ++reg::st().copies; }
    TrackedN(TrackedN&& o) noexcept(!Throwing) : v((o.check(), o.v)) { if (Throwing) reg::point(); reg::born(this); o.v = MOVED; ++reg::st().moves; }
    TrackedN& operator=(const TrackedN& o) noexcept(!Throwing) { check(); o.check(); if (Throwing) reg::point(); v = o.v; ++reg::st().copy_assign; return *this; }
    TrackedN& operator=(TrackedN&& o) noexcept(!Throwing) { check(); o.check(); if (Throwing) reg::point(); v = o.v; if (&o != this) o.v = MOVED; ++reg::st().move_assign; return *this; }
    ~TrackedN() { reg::died(this); v = 0xdddddddddddddddd; }
    void check() const { reg::used(this); }
    friend bool operator==(const TrackedN& a, const TrackedN& b) { a.check(); b.check(); return a.v == b.v; }
    friend bool operator<(const TrackedN& a, const TrackedN& b) { a.check(); b.check(); return a.v < b.v; }
};
// move-only
struct MoveOnly {
    u64 v;
    explicit MoveOnly(u64 x) : v(x) { reg::born(this); }
    MoveOnly(MoveOnly&& o) noexcept : v((o.check(), o.v)) { reg::born(this); o.v = MOVED; ++reg::st().moves; }
    MoveOnly& operator=(MoveOnly&& o) noexcept { check(); o.check(); v = o.v; if (&o != this) o.v = MOVED; ++reg::st().move_assign; return *this; }
    ~MoveOnly() { reg::died(this); v = 0xdddddddddddddddd; }
    void check() const { reg::used(this); }
    friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.v == b.v; }
};
// trivial copy/move, user-provided destructor
struct DtorOnly {
    u64 v;
    static inline long destroyed = 0;
    explicit DtorOnly(u64 x) noexcept : v(x) {}
    ~DtorOnly() { ++destroyed; v = 0xdddddddddddddddd; }
};
// copies only (no move members)
struct CopyOnly {
    u64 v;
    explicit CopyOnly(u64 x) : v(x) { reg::born(this); }
    CopyOnly(const CopyOnly& o) : v((o.check(), o.v)) { reg::born(this); ++reg::st().copies; }
    CopyOnly& operator=(const CopyOnly& o) { check(); o.check(); v = o.v; ++reg::st().copy_assign; return *this; }
    ~CopyOnly() { reg::died(this); v = 0xdddddddddddddddd; }
    void check() const { reg::used(this); }
};

enum class E8 : std::uint8_t { a, b, c, d = 9 };
enum class E32 : unsigned { a, b = 7, c = 300 };
enum EU : unsigned { EU_a, EU_b, EU_c = 30 };
enum class ES : int { a = -5, b, c = 77, SENTINEL = 1000 };
enum class ESS : std::uint8_t { a, b, SENTINEL_START = 250 };
enum class ESE : short { a = -3, b, SENTINEL_START = 100, SENTINEL_END = 110 };
struct Empty {};
struct AggIF { int i; float f; };
union Un { int i; float f; unsigned char c[4]; };   // no member is known to be active: no spare representation
struct AggUn { Un u; bool b; };
struct AggSB { std::string s; bool b; };
struct AggNested { AggIF a; double d; };
struct Poly { u64 v; explicit Poly(u64 x) : v(x) {} virtual ~Poly() {} virtual u64 get() const { return v; } };
struct PolyD : Poly { u64 w; explicit PolyD(u64 x) : Poly(x), w(~x) {} u64 get() const override { return w; } };
struct Padded { std::uint64_t x; std::uint32_t y; std::uint8_t PADDING{}; };
struct Padded16 { std::uint32_t x; std::uint16_t PADDING = 0; explicit Padded16(std::uint32_t a) : x(a) {} };
struct ConstMember { const int a; int b; };
struct TriNoDef { int x; explicit constexpr TriNoDef(int a) noexcept : x(a) {} };
struct Host { int a, b, c; u64 d; int f(int) { return 1; } int g(int) const { return 2; } virtual int h() { return 3; } virtual ~Host() = default; };
struct Host2 { char pad[40]; int z; };
struct HostD : Host2, Host { int e; };
// user traits: two levels
struct UT { std::uint32_t v; explicit UT(std::uint32_t x) noexcept : v(x) {} };
template<> struct opt::option_traits<UT> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const UT* p) noexcept { std::uint32_t x; std::memcpy(&x, static_cast<const void*>(p), 4); return std::uintmax_t(x) - 0xfffffff0u; }
    static void set_level(UT* p, std::uintmax_t l) noexcept { std::uint32_t x = std::uint32_t(0xfffffff0u + l); std::memcpy(static_cast<void*>(p), &x, 4); }
};
// user traits over a non-trivial, instrumented, possibly throwing type (levels live in v)
template<bool Throwing>
struct UTN {
    TrackedN<77, Throwing> t;
    explicit UTN(u64 x) noexcept(!Throwing) : t(x) {}
    friend bool operator==(const UTN& a, const UTN& b) { return a.t == b.t; }
};
template<bool Th> struct opt::option_traits<UTN<Th>> {
    static constexpr std::uintmax_t max_level = 2;
    static constexpr u64 base = 0xfffffffffffffff0ull;
    static std::uintmax_t get_level(const UTN<Th>* p) noexcept { u64 x; std::memcpy(&x, static_cast<const void*>(p), 8); return x - base; }
    static void set_level(UTN<Th>* p, std::uintmax_t l) noexcept { if (reg::find(p) >= 0) { try { FAIL("an empty level was written over a live object"); } catch (...) {} } u64 x = base + l; std::memcpy(static_cast<void*>(p), &x, 8); }
};
using sent_int = opt::sentinel<int, -1>;
using sent_int3 = opt::sentinel<int, -1, -2, 100>;
struct mem_host { int id; const char* nm; };

inline int g_ints[64];
inline Host g_hosts[4];
inline const char g_text[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

// ---------------------------------------------------------------- Ty
template<class T, class = void> struct Ty;

#if OPTION_USE_QUIET_NAN
inline constexpr std::uint32_t nan32 = 0xFFC3EFB5u; inline constexpr u64 nan64 = 0xFFFBF26430BB3557ull;
#else
inline constexpr std::uint32_t nan32 = 0xFFBF69AFu; inline constexpr u64 nan64 = 0xFFF6C79F55B0898Full;
#endif
inline bool reserved_f32(std::uint32_t b) { return b >= nan32 && b - nan32 < 256; }
inline bool reserved_f64(u64 b) { return b >= nan64 && b - nan64 < 256; }

#define TY_INT(T) template<> struct Ty<T> { static T make(u64 s) { return static_cast<T>(s); } static bool same(const T& v, u64 s) { return v == static_cast<T>(s); } static const char* name() { return #T; } };
TY_INT(int) TY_INT(unsigned char) TY_INT(char) TY_INT(short) TY_INT(unsigned) TY_INT(long long) TY_INT(u64)
template<> struct Ty<bool> { static bool make(u64 s) { return (s & 1) != 0; } static bool same(const bool& v, u64 s) { return bits_of(v) == (s & 1); } static const char* name() { return "bool"; } };
template<> struct Ty<float> { static u64 b(u64 s) { std::uint32_t x = std::uint32_t(s); return reserved_f32(x) ? x ^ 0x80000000u : x; }
    static float make(u64 s) { return from_bits<float>(b(s)); } static bool same(const float& v, u64 s) { return bits_of(v) == b(s); } static const char* name() { return "float"; } };
template<> struct Ty<double> { static u64 b(u64 s) { return reserved_f64(s) ? s ^ 0x8000000000000000ull : s; }
    static double make(u64 s) { return from_bits<double>(b(s)); } static bool same(const double& v, u64 s) { return bits_of(v) == b(s); } static const char* name() { return "double"; } };
// data and function pointers: null, real objects, one past the end, small and high canonical addresses, all-ones
inline u64 ptr_bits(u64 s) {
    switch (s % 7) {
    case 0: return 0;
    case 1: case 2: return reinterpret_cast<u64>(&g_ints[(s >> 3) % 65]);
    case 3: return (s >> 3) % 4096;
    case 4: return (s >> 3) & 0x00007fffffffffffull;
    case 5: return 0xffff800000000000ull | ((s >> 3) & 0x7fffffffffffull);
    default: return u64(0) - (s >> 3) % 4096;
    }
}
template<class P> struct Ty<P*> { static P* make(u64 s) { return reinterpret_cast<P*>(ptr_bits(s)); } static bool same(P* const& v, u64 s) { return reinterpret_cast<u64>(v) == ptr_bits(s); } static const char* name() { return "pointer"; } };
template<> struct Ty<std::reference_wrapper<int>> { using T = std::reference_wrapper<int>; static T make(u64 s) { return T(g_ints[s % 64]); } static bool same(const T& v, u64 s) { return &v.get() == &g_ints[s % 64]; } static const char* name() { return "reference_wrapper<int>"; } };
template<> struct Ty<int Host::*> { using T = int Host::*; static T pick(u64 s) { switch (s % 4) { case 0: return nullptr; case 1: return &Host::a; case 2: return &Host::b; default: return &Host::c; } }
    static T make(u64 s) { return pick(s); } static bool same(const T& v, u64 s) { return v == pick(s); } static const char* name() { return "int Host::*"; } };
template<> struct Ty<int (Host::*)(int)> { using T = int (Host::*)(int); static T pick(u64 s) { return s % 2 ? &Host::f : T(nullptr); }
    static T make(u64 s) { return pick(s); } static bool same(const T& v, u64 s) { return v == pick(s); } static const char* name() { return "int (Host::*)(int)"; } };
template<> struct Ty<int (HostD::*)()> { using T = int (HostD::*)(); static T pick(u64 s) { return s % 2 ? T(static_cast<int (Host::*)()>(&Host::h)) : T(nullptr); }
    static T make(u64 s) { return pick(s); } static bool same(const T& v, u64 s) { return v == pick(s); } static const char* name() { return "int (HostD::*)() via base"; } };
#define TY_ENUM(E, ...) template<> struct Ty<E> { static E make(u64 s) { static const E t[] = {__VA_ARGS__}; return t[s % (sizeof(t) / sizeof(*t))]; } static bool same(const E& v, u64 s) { return v == make(s); } static const char* name() { return #E; } };
TY_ENUM(E8, E8::a, E8::b, E8::c, E8::d, E8(15), E8(12)) TY_ENUM(E32, E32::a, E32::b, E32::c, E32(0x123456), E32(511), E32(0xffffffff)) TY_ENUM(EU, EU_a, EU_b, EU_c, EU(31))
TY_ENUM(ES, ES::a, ES::b, ES::c, ES(-2147483647 - 1), ES(2147483647), ES(999), ES(1001)) TY_ENUM(ESS, ESS::a, ESS::b, ESS(249)) TY_ENUM(ESE, ESE::a, ESE::b, ESE(99), ESE(111), ESE(-32768), ESE(32767))

inline std::string str_of(u64 s) {
    std::size_t n; switch (s % 8) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 15; break; case 3: n = 16; break; case 4: n = (s >> 8) % 255; break; case 5: n = 240 + (s >> 8) % 30; break; default: n = (s >> 8) % 40; }
    std::string r; u64 x = mix(s); for (std::size_t i = 0; i < n; ++i) { r.push_back(char(x >> (8 * (i % 8)))); if (i % 8 == 7) x = mix(x + i); } return r;
}
template<class Ch> struct Ty<std::basic_string<Ch>> { using T = std::basic_string<Ch>;
    static T make(u64 s) { std::string b = str_of(s); T r; if (s & 0x40) r.reserve(b.size() + (s >> 9) % 64); for (unsigned char x : b) r.push_back(Ch(x)); return r; }
    static bool same(const T& v, u64 s) { std::string b = str_of(s); if (v.size() != b.size()) return false; for (std::size_t i = 0; i < b.size(); ++i) if (v[i] != Ch((unsigned char)b[i])) return false; return v.c_str()[v.size()] == Ch(0) && v.capacity() >= v.size(); }
    static const char* name() { return sizeof(Ch) == 1 ? "string" : "wide string"; } };
template<> struct Ty<std::string_view> { using T = std::string_view;
    static T make(u64 s) { if (s % 5 == 0) return T(); std::size_t o = (s >> 3) % 63, n = (s >> 11) % (63 - o); return T(g_text + o, n); }
    static bool same(const T& v, u64 s) { T m = make(s); return v.data() == m.data() && v.size() == m.size(); } static const char* name() { return "string_view"; } };
template<class A> struct Ty<std::vector<int, A>> { using T = std::vector<int, A>;
    static T make(u64 s) { T r; std::size_t n = (s % 4 == 0) ? 0 : s % 4 == 1 ? 1 : (s >> 4) % 20; if (s & 0x1000) r.reserve(n + (s >> 13) % 8); for (std::size_t i = 0; i < n; ++i) r.push_back(int(mix(s + i))); return r; }
    static bool same(const T& v, u64 s) { std::size_t n = (s % 4 == 0) ? 0 : s % 4 == 1 ? 1 : (s >> 4) % 20; if (v.size() != n) return false; for (std::size_t i = 0; i < n; ++i) if (v[i] != int(mix(s + i))) return false; return true; }
    static const char* name() { return "vector<int>"; } };
template<> struct Ty<std::unique_ptr<int>> { using T = std::unique_ptr<int>; static T make(u64 s) { return s % 5 == 0 ? T() : T(new int(int(s))); } static bool same(const T& v, u64 s) { return s % 5 == 0 ? v == nullptr : v != nullptr && *v == int(s); } static const char* name() { return "unique_ptr<int>"; } };
template<class E> struct Ty<std::unique_ptr<E[]>> { using T = std::unique_ptr<E[]>; static constexpr std::size_t n = 3;
    static T make(u64 s) { if (s % 5 == 0) return T(); T r(new E[n]); for (std::size_t i = 0; i < n; ++i) r[i] = E(mix(s + i)); return r; }
    static bool same(const T& v, u64 s) { if (s % 5 == 0) return v == nullptr; if (v == nullptr) return false; for (std::size_t i = 0; i < n; ++i) if (v[i] != E(mix(s + i))) return false; return true; } static const char* name() { return "unique_ptr<array>"; } };
// an allocator without state that is not std::allocator
template<class E> struct PlainAlloc {
    using value_type = E; PlainAlloc() = default; template<class U> PlainAlloc(const PlainAlloc<U>&) {}
    E* allocate(std::size_t n) { return std::allocator<E>().allocate(n); } void deallocate(E* p, std::size_t n) { std::allocator<E>().deallocate(p, n); }
    bool operator==(const PlainAlloc&) const { return true; } bool operator!=(const PlainAlloc&) const { return false; }
};
template<> struct Ty<std::vector<bool>> { using T = std::vector<bool>; static T make(u64 s) { T r; std::size_t n = s % 3 == 0 ? 0 : (s >> 4) % 200; for (std::size_t i = 0; i < n; ++i) r.push_back(mix(s + i) & 1); return r; }
    static bool same(const T& v, u64 s) { return v == make(s); } static const char* name() { return "vector<bool>"; } };
using PlainVec = std::vector<int, PlainAlloc<int>>; using PlainStr = std::basic_string<char, std::char_traits<char>, PlainAlloc<char>>;
template<> struct Ty<PlainStr> { using T = PlainStr; static T make(u64 s) { auto b = Ty<std::string>::make(s); return T(b.data(), b.size()); } static bool same(const T& v, u64 s) { auto b = Ty<std::string>::make(s); return v.size() == b.size() && std::memcmp(v.data(), b.data(), b.size()) == 0 && v.c_str()[v.size()] == 0; } static const char* name() { return "string with an allocator"; } };
template<> struct Ty<std::shared_ptr<int>> { using T = std::shared_ptr<int>; static T make(u64 s) { return s % 5 == 0 ? T() : std::make_shared<int>(int(s)); } static bool same(const T& v, u64 s) { return s % 5 == 0 ? v == nullptr : v != nullptr && *v == int(s); } static const char* name() { return "shared_ptr<int>"; } };
template<class F> struct Ty<std::complex<F>> { using T = std::complex<F>; static T make(u64 s) { return T(Ty<F>::make(s), Ty<F>::make(mix(s))); } static bool same(const T& v, u64 s) { const F* p = reinterpret_cast<const F*>(&v); return Ty<F>::same(p[0], s) && Ty<F>::same(p[1], mix(s)); } static const char* name() { return "complex"; } };
template<class A, class B> struct Ty<std::pair<A, B>> { using T = std::pair<A, B>; static T make(u64 s) { return T(Ty<std::remove_const_t<A>>::make(s), Ty<std::remove_const_t<B>>::make(mix(s))); } static bool same(const T& v, u64 s) { return Ty<std::remove_const_t<A>>::same(v.first, s) && Ty<std::remove_const_t<B>>::same(v.second, mix(s)); }
    static const char* name() { static const std::string n = std::string("pair<") + Ty<std::remove_const_t<A>>::name() + "," + Ty<std::remove_const_t<B>>::name() + ">"; return n.c_str(); } };
template<class... Ts> struct Ty<std::tuple<Ts...>> { using T = std::tuple<Ts...>;
    template<std::size_t... I> static T mk(u64 s, std::index_sequence<I...>) { return T(Ty<std::remove_const_t<Ts>>::make(I ? mix(s + I) : s)...); }
    template<std::size_t... I> static bool sm(const T& v, u64 s, std::index_sequence<I...>) { return (true && ... && Ty<std::remove_const_t<Ts>>::same(std::get<I>(v), I ? mix(s + I) : s)); }
    static T make(u64 s) { return mk(s, std::index_sequence_for<Ts...>{}); } static bool same(const T& v, u64 s) { return sm(v, s, std::index_sequence_for<Ts...>{}); }
    static const char* name() { static const std::string n = [] { std::string r = "tuple<"; ((r += Ty<std::remove_const_t<Ts>>::name(), r += ","), ...); return r + ">"; }(); return n.c_str(); } };
template<class E, std::size_t N> struct Ty<std::array<E, N>> { using T = std::array<E, N>;
    template<std::size_t... I> static T mk(u64 s, std::index_sequence<I...>) { return T{{Ty<E>::make(I ? mix(s + I) : s)...}}; }
    static T make(u64 s) { return mk(s, std::make_index_sequence<N>{}); } static bool same(const T& v, u64 s) { for (std::size_t i = 0; i < N; ++i) if (!Ty<E>::same(v[i], i ? mix(s + i) : s)) return false; return true; }
    static const char* name() { static const std::string n = std::string("array<") + Ty<E>::name() + "," + std::to_string(N) + ">"; return n.c_str(); } };
template<> struct Ty<Empty> { static Empty make(u64) { return {}; } static bool same(const Empty&, u64) { return true; } static const char* name() { return "Empty"; } };
template<> struct Ty<Un> { static Un make(u64 s) { Un u; u.i = int(s); return u; } static bool same(const Un& v, u64 s) { return bits_of(v) == (s & 0xffffffffu); } static const char* name() { return "union{int;float}"; } };
template<> struct Ty<AggUn> { static AggUn make(u64 s) { return AggUn{Ty<Un>::make(s), (s >> 40 & 1) != 0}; } static bool same(const AggUn& v, u64 s) { return Ty<Un>::same(v.u, s) && v.b == ((s >> 40 & 1) != 0); } static const char* name() { return "struct{union;bool}"; } };
template<> struct Ty<AggIF> { static AggIF make(u64 s) { return AggIF{int(s), Ty<float>::make(mix(s))}; } static bool same(const AggIF& v, u64 s) { return v.i == int(s) && Ty<float>::same(v.f, mix(s)); } static const char* name() { return "struct{int;float}"; } };
template<> struct Ty<AggSB> { static AggSB make(u64 s) { return AggSB{Ty<std::string>::make(s), (s & 1) != 0}; } static bool same(const AggSB& v, u64 s) { return Ty<std::string>::same(v.s, s) && Ty<bool>::same(v.b, s); } static const char* name() { return "struct{string;bool}"; } };
template<> struct Ty<AggNested> { static AggNested make(u64 s) { return AggNested{Ty<AggIF>::make(s), Ty<double>::make(mix(s + 1))}; } static bool same(const AggNested& v, u64 s) { return Ty<AggIF>::same(v.a, s) && Ty<double>::same(v.d, mix(s + 1)); } static const char* name() { return "struct{struct{int;float};double}"; } };
template<> struct Ty<Poly> { static Poly make(u64 s) { return Poly(s); } static bool same(const Poly& v, u64 s) { return v.v == s && v.get() == s; } static const char* name() { return "polymorphic"; } };
template<> struct Ty<PolyD> { static PolyD make(u64 s) { return PolyD(s); } static bool same(const PolyD& v, u64 s) { const Poly& b = v; return v.v == s && b.get() == ~s; } static const char* name() { return "polymorphic derived"; } };
template<> struct Ty<Padded> { static Padded make(u64 s) { return Padded{s, std::uint32_t(mix(s)), 0}; } static bool same(const Padded& v, u64 s) { return v.x == s && v.y == std::uint32_t(mix(s)) && v.PADDING == 0; } static const char* name() { return "PADDING u8"; } };
template<> struct Ty<Padded16> { static Padded16 make(u64 s) { return Padded16(std::uint32_t(s)); } static bool same(const Padded16& v, u64 s) { return v.x == std::uint32_t(s) && v.PADDING == 0; } static const char* name() { return "PADDING u16"; } };
template<> struct Ty<ConstMember> { static ConstMember make(u64 s) { return ConstMember{int(s), int(mix(s))}; } static bool same(const ConstMember& v, u64 s) { return v.a == int(s) && v.b == int(mix(s)); } static const char* name() { return "struct{const int;int}"; } };
template<> struct Ty<TriNoDef> { static TriNoDef make(u64 s) { return TriNoDef(int(s)); } static bool same(const TriNoDef& v, u64 s) { return v.x == int(s); } static const char* name() { return "no default ctor"; } };
template<> struct Ty<UT> { static std::uint32_t b(u64 s) { std::uint32_t x = std::uint32_t(s); return x >= 0xfffffff0u && x <= 0xfffffff2u ? 5u : x; } static UT make(u64 s) { return UT(b(s)); } static bool same(const UT& v, u64 s) { return v.v == b(s); } static const char* name() { return "user traits"; } };
inline u64 utn_val(u64 s) { return s >= 0xfffffffffffffff0ull && s <= 0xfffffffffffffff1ull ? 5 : s; }
template<bool Th> struct Ty<UTN<Th>> { static UTN<Th> make(u64 s) { return UTN<Th>(utn_val(s)); } static bool same(const UTN<Th>& v, u64 s) { v.t.check(); return v.t.v == utn_val(s); } static const char* name() { return "user traits, instrumented"; } };
template<int G, bool Th, bool C, bool M> struct Ty<Tracked<G, Th, C, M>> { using T = Tracked<G, Th, C, M>; static T make(u64 s) { return T(s); } static bool same(const T& v, u64 s) { v.check(); return v.v == s; } static const char* name() { return Th ? "Tracked throwing" : "Tracked"; } };
template<int G, bool Th> struct Ty<TrackedN<G, Th>> { using T = TrackedN<G, Th>; static T make(u64 s) { return T(s); } static bool same(const T& v, u64 s) { v.check(); return v.v == s; } static const char* name() { return Th ? "TrackedN throwing" : "TrackedN"; } };
template<> struct Ty<MoveOnly> { static MoveOnly make(u64 s) { return MoveOnly(s); } static bool same(const MoveOnly& v, u64 s) { v.check(); return v.v == s; } static const char* name() { return "MoveOnly"; } };
template<> struct Ty<CopyOnly> { static CopyOnly make(u64 s) { return CopyOnly(s); } static bool same(const CopyOnly& v, u64 s) { v.check(); return v.v == s; } static const char* name() { return "CopyOnly"; } };
template<> struct Ty<DtorOnly> { static DtorOnly make(u64 s) { return DtorOnly(s); } static bool same(const DtorOnly& v, u64 s) { return v.v == s; } static const char* name() { return "DtorOnly"; } };
template<> struct Ty<sent_int> { static int b(u64 s) { return int(s) == -1 ? 12 : int(s); } static sent_int make(u64 s) { return sent_int(b(s)); } static bool same(const sent_int& v, u64 s) { return int(v) == b(s); } static const char* name() { return "sentinel<int,-1>"; } };
template<> struct Ty<sent_int3> { static int b(u64 s) { int x = int(s); return x == -1 || x == -2 || x == 100 ? 12 : x; } static sent_int3 make(u64 s) { return sent_int3(b(s)); } static bool same(const sent_int3& v, u64 s) { return int(v) == b(s); } static const char* name() { return "sentinel<int,-1,-2,100>"; } };
// option as contained type: 1 in 4 empty, otherwise a value
template<class U> struct Ty<opt::option<U>> { using T = opt::option<U>; using W = std::remove_const_t<U>;
    static bool none(u64 s) { return mix(s) % 4 == 0; }
    static T make(u64 s) { if (none(s)) return T(opt::none); return T(Ty<W>::make(s)); }
    static bool same(const T& v, u64 s) { if (v.has_value() == none(s)) return false; return none(s) || Ty<W>::same(v.get(), s); }
    static const char* name() { static const std::string n = std::string("option<") + Ty<W>::name() + ">"; return n.c_str(); } };

// ---------------------------------------------------------------- storage with chosen garbage
template<class T> struct Box {
    alignas(T) unsigned char buf[sizeof(T)];
    T* p = nullptr;
    template<class... A> explicit Box(unsigned char fill, A&&... a) { std::memset(buf, fill, sizeof buf); pbt::opaque(buf); p = ::new (static_cast<void*>(buf)) T(static_cast<A&&>(a)...); }
    Box(const Box&) = delete;
    ~Box() { p->~T(); }
    T& operator*() { return *p; }
    T* operator->() { return p; }
};
template<class Opt, class T>
void check_state(const Opt& o, const std::optional<u64>& m, const char* what) {
    pbt::opaque(o);
    REQUIRE_MSG(o.has_value() == m.has_value(), "%s: %s: has_value()=%d, expected %d", Ty<T>::name(), what, int(o.has_value()), int(m.has_value()));
    REQUIRE_MSG(bool(o) == m.has_value(), "%s: %s: operator bool disagrees with has_value()", Ty<T>::name(), what);
    if (m) REQUIRE_MSG(Ty<T>::same(o.get(), *m), "%s: %s: the contained value is not the expected one (spec %llu)", Ty<T>::name(), what, (unsigned long long)*m);
}
