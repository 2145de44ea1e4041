// Histories of operations whose every observation is written down, independent of representation, so that configurations can be compared.
#pragma once
#include <opt/option.hpp>
#include <array>
#include <complex>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
namespace ts {
using u64 = std::uint64_t;
constexpr u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
template<class T> inline void opaque(T& x) { asm volatile("" : : "r"(&x) : "memory"); }
inline u64 steps_done = 0;
template<class T, class = void> struct K;
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
struct Ctx {
    u64 seed = 0, x = 1469598103934665603ull; int limit = 0; std::string* log = nullptr; u64 left = 0;
    void n(u64 v) { x = (x ^ v) * 1099511628211ull; x ^= x >> 29; if (log) { char b[40]; std::snprintf(b, sizeof b, " %llx", (unsigned long long)v); *log += b; } }
    template<class T> void v(const T& t) { n(K<bare<T>>::key(t)); }
    template<class T> void o(const opt::option<T>& t) { opaque(t); n(t.has_value() ? 11 : 12); n((bool(t) ? 1u : 2u) + (t == opt::none ? 4u : 8u)); if (t.has_value()) v(t.get()); }
    void str(const char* p) { for (; *p; ++p) n(u64(static_cast<unsigned char>(*p))); }
    void label(const char* l) { if (log) { *log += "\n"; *log += l; *log += ":"; } }
    u64 next() { seed += 0x9E3779B97F4A7C15ull; return mix(seed); }
    u64 pick(u64 k) { return next() % k; }
};
struct Test { std::string name; void (*fn)(Ctx&); long fixed; };
std::vector<Test>& tests();
struct Reg { Reg(const char* n, void (*f)(Ctx&), long fixed = 0) { tests().push_back({n, f, fixed}); } };
#define TS_CAT2(a, b) a##b
#define TS_CAT(a, b) TS_CAT2(a, b)
#define TS_REG(...) static ::ts::Reg TS_CAT(ts_reg_, __COUNTER__)(__VA_ARGS__)
// values and how they are written down
inline int pool[8] = {10, 11, 12, 13, 14, 15, 16, 17}; inline const char* const texts[6] = {"", "a", "some text", "another one that is longer than sixteen", "x\ny", "zz"};
inline u64 bytes(const void* p, std::size_t n) { u64 h = 77; const unsigned char* q = static_cast<const unsigned char*>(p); for (std::size_t i = 0; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull; return h; }
template<class T> struct K<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> { static T make(u64 s) { return T(s % 3 == 0 ? s % 4 : s % 3 == 1 ? std::numeric_limits<T>::max() - T(s % 5) : s >> 7); } static u64 key(T x) { return u64(x); } static constexpr bool cmp = true; };
template<> struct K<bool> { static bool make(u64 s) { return s & 4; } static u64 key(bool x) { return x ? 21 : 22; } static constexpr bool cmp = true; };
template<class T> struct K<T, std::enable_if_t<std::is_floating_point_v<T>>> { static T make(u64 s) { switch (s % 7) { case 0: return T(0); case 1: return -T(0); case 2: return std::numeric_limits<T>::infinity(); case 3: return std::numeric_limits<T>::denorm_min(); default: return T(double(s >> 40) / 8); } } static u64 key(T x) { return std::isnan(x) ? 5 : std::isinf(x) ? 6 + (x > 0) : u64(std::int64_t(double(x) * 8)) * 2 + (std::signbit(x) ? 1 : 0); } static constexpr bool cmp = true; };
template<> struct K<int*> { static int* make(u64 s) { return s % 5 ? pool + s % 8 : nullptr; } static u64 key(const int* p) { return p ? u64(p - pool) : 99; } static constexpr bool cmp = true; };
template<> struct K<const int*> { static const int* make(u64 s) { return s % 5 ? pool + s % 9 : nullptr; } static u64 key(const int* p) { return p ? u64(p - pool) : 99; } static constexpr bool cmp = true; };
template<> struct K<const char*> { static const char* make(u64 s) { return s % 5 ? texts[3] + s % 30 : nullptr; } static u64 key(const char* p) { return p ? std::strlen(p) : 99; } static constexpr bool cmp = true; };
template<> struct K<std::string> { static std::string make(u64 s) { return s % 4 == 0 ? std::string() : std::string(s % 50, char('a' + s % 26)); } static u64 key(const std::string& x) { return bytes(x.data(), x.size()) + x.size(); } static constexpr bool cmp = true; };
template<> struct K<std::string_view> { static std::string_view make(u64 s) { return s % 5 ? std::string_view(texts[s % 6]) : std::string_view(); } static u64 key(std::string_view x) { return bytes(x.data(), x.size()) + x.size(); } static constexpr bool cmp = true; };
template<class T> struct K<std::vector<T>> { static std::vector<T> make(u64 s) { std::vector<T> v; for (u64 i = 0; i < s % 4; ++i) v.push_back(K<T>::make(mix(s + i))); return v; } static u64 key(const std::vector<T>& x) { u64 h = x.size(); for (auto& e : x) h = mix(h) + K<T>::key(e); return h; } static constexpr bool cmp = K<T>::cmp; };
template<class T> struct K<std::unique_ptr<T>> { static std::unique_ptr<T> make(u64 s) { return s % 4 ? std::make_unique<T>(K<T>::make(s)) : nullptr; } static u64 key(const std::unique_ptr<T>& x) { return x ? K<T>::key(*x) + 1 : 0; } static constexpr bool cmp = false; };
template<class T> struct K<std::shared_ptr<T>> { static std::shared_ptr<T> make(u64 s) { return s % 4 ? std::make_shared<T>(K<T>::make(s)) : nullptr; } static u64 key(const std::shared_ptr<T>& x) { return x ? K<T>::key(*x) * 8 + u64(x.use_count()) : 0; } static constexpr bool cmp = false; };
template<> struct K<std::reference_wrapper<int>> { static std::reference_wrapper<int> make(u64 s) { return std::ref(pool[s % 8]); } static u64 key(const std::reference_wrapper<int>& x) { return u64(&x.get() - pool); } static constexpr bool cmp = false; };
template<class T> struct K<std::complex<T>> { static std::complex<T> make(u64 s) { return std::complex<T>(K<T>::make(s), K<T>::make(mix(s))); } static u64 key(const std::complex<T>& x) { return mix(K<T>::key(x.real())) + K<T>::key(x.imag()); } static constexpr bool cmp = false; };
struct Host { int a, b, c; int f(int x) const { return x + a; } int g(int x) const { return x - b; } };
inline int fun0(int x) { return x; } inline int fun1(int x) { return x + 1; }
template<> struct K<int Host::*> { static int Host::* make(u64 s) { return s % 4 == 0 ? nullptr : s % 4 == 1 ? &Host::a : s % 4 == 2 ? &Host::b : &Host::c; } static u64 key(int Host::* p) { Host h{1, 2, 3}; return p ? u64(h.*p) : 9; } static constexpr bool cmp = false; };
using Mf = int (Host::*)(int) const; template<> struct K<Mf> { static Mf make(u64 s) { return s % 3 == 0 ? nullptr : s % 3 == 1 ? &Host::f : &Host::g; } static u64 key(Mf p) { Host h{10, 20, 3}; return p ? u64((h.*p)(100)) : 9; } static constexpr bool cmp = false; };
using Fp = int (*)(int); template<> struct K<Fp> { static Fp make(u64 s) { return s % 3 == 0 ? nullptr : s % 3 == 1 ? &fun0 : &fun1; } static u64 key(Fp p) { return p ? u64(p(100)) : 9; } static constexpr bool cmp = false; };
template<class T, class U> struct K<std::pair<T, U>> { static std::pair<T, U> make(u64 s) { return std::pair<T, U>(K<T>::make(mix(s)), K<U>::make(mix(s + 1))); } static u64 key(const std::pair<T, U>& x) { return mix(K<T>::key(x.first)) + K<U>::key(x.second); } static constexpr bool cmp = K<T>::cmp && K<U>::cmp; };
template<class... Ts> struct K<std::tuple<Ts...>> { static std::tuple<Ts...> make(u64 s) { return std::tuple<Ts...>{K<Ts>::make(s = mix(s + 3))...}; } static u64 key(const std::tuple<Ts...>& x) { return std::apply([](const Ts&... e) { u64 h = 5; ((h = mix(h) + K<Ts>::key(e)), ...); return h; }, x); } static constexpr bool cmp = (K<Ts>::cmp && ...); };
template<class T, std::size_t N> struct K<std::array<T, N>> { static std::array<T, N> make(u64 s) { return make(s, std::make_index_sequence<N>()); } template<std::size_t... I> static std::array<T, N> make(u64 s, std::index_sequence<I...>) { return std::array<T, N>{{K<T>::make(mix(s + I))...}}; } static u64 key(const std::array<T, N>& x) { u64 h = 1; for (auto& e : x) h = mix(h) + K<T>::key(e); return h; } static constexpr bool cmp = K<T>::cmp; };
template<class T> struct K<opt::option<T>> { static opt::option<T> make(u64 s) { if (s % 4 == 0) return opt::option<T>(); return opt::option<T>(K<T>::make(mix(s + 5))); } static u64 key(const opt::option<T>& x) { return x.has_value() ? mix(K<T>::key(x.get()) + 1) : 3; } static constexpr bool cmp = K<T>::cmp; };
template<class T> struct K<std::optional<T>> { static std::optional<T> make(u64 s) { if (s % 4 == 0) return std::optional<T>(); return std::optional<T>(K<T>::make(mix(s + 5))); } static u64 key(const std::optional<T>& x) { return x.has_value() ? mix(K<T>::key(*x) + 1) : 3; } static constexpr bool cmp = false; };
template<class T, class U> struct K<std::variant<T, U>> { static std::variant<T, U> make(u64 s) { if (s % 2) return std::variant<T, U>(std::in_place_index<0>, K<T>::make(mix(s))); return std::variant<T, U>(std::in_place_index<1>, K<U>::make(mix(s))); } static u64 key(const std::variant<T, U>& x) { return x.index() == 0 ? K<T>::key(std::get<0>(x)) * 2 : K<U>::key(std::get<1>(x)) * 2 + 1; } static constexpr bool cmp = K<T>::cmp && K<U>::cmp; };
template<auto... S> struct K<opt::sentinel<int, S...>> { using W = opt::sentinel<int, S...>; static W make(u64 s) { int v = int(s % 1000); while (((v == S) || ...)) v += 1000; return W(v); } static u64 key(const W& x) { return u64(x.m); } static constexpr bool cmp = false; };
// enumerations
enum class En0 { a, b, c, d }; enum class En1 : unsigned char { a, b, c }; enum En2 : unsigned short { En2a = 3, En2b = 90, En2c = 4 }; enum class En3 : unsigned { a, SENTINEL, b, c }; enum class En4 : unsigned char { a, b, SENTINEL_START, c = 1 }; enum class En5 : short { a, b, SENTINEL_START = 100, SENTINEL_END = 110, c = 500 };
#define TS_ENUM(E, ...) template<> struct K<E> { static E make(u64 s) { constexpr E all[] = {__VA_ARGS__}; return all[s % (sizeof all / sizeof *all)]; } static u64 key(E x) { return u64(x) & 0xffff; } static constexpr bool cmp = true; };
TS_ENUM(En0, En0::a, En0::b, En0::c, En0::d) TS_ENUM(En1, En1::a, En1::b, En1::c) TS_ENUM(En2, En2a, En2b, En2c) TS_ENUM(En3, En3::a, En3::b, En3::c) TS_ENUM(En4, En4::a, En4::b) TS_ENUM(En5, En5::a, En5::b, En5::c)
// classes
#define TS_REL(T) inline bool operator==(const T& a, const T& b) { return ts::K<T>::key(a) == ts::K<T>::key(b); } inline bool operator!=(const T& a, const T& b) { return ts::K<T>::key(a) != ts::K<T>::key(b); } inline bool operator<(const T& a, const T& b) { return ts::K<T>::key(a) < ts::K<T>::key(b); } inline bool operator>(const T& a, const T& b) { return ts::K<T>::key(a) > ts::K<T>::key(b); } inline bool operator<=(const T& a, const T& b) { return ts::K<T>::key(a) <= ts::K<T>::key(b); } inline bool operator>=(const T& a, const T& b) { return ts::K<T>::key(a) >= ts::K<T>::key(b); }
// marks copies (never elided) and being moved from, not the number of moves
struct Mk { int a; int mark = 0; Mk(int x) : a(x) {} Mk(const Mk& o) : a(o.a), mark(o.mark + 1) {} Mk(Mk&& o) noexcept : a(o.a), mark(o.mark) { o.a = -1; } Mk& operator=(const Mk& o) { a = o.a; mark = o.mark + 100; return *this; } Mk& operator=(Mk&& o) noexcept { a = o.a; mark = o.mark; if (this != &o) o.a = -2; return *this; } ~Mk() { a = -3; } };
template<> struct K<Mk> { static Mk make(u64 s) { return Mk(int(s % 997)); } static u64 key(const Mk& x) { return u64(unsigned(x.a)) * 1000003 + u64(x.mark); } static constexpr bool cmp = true; }; TS_REL(Mk)
// throws when copied, as often as asked
inline int throw_at = -1; struct Boom { int code; }; inline void danger() { if (throw_at >= 0 && throw_at-- == 0) throw Boom{7}; }
struct Th { int* p; explicit Th(int x) : p(new int(x)) {} Th(const Th& o) : p(nullptr) { danger(); p = o.p ? new int(*o.p) : nullptr; } Th(Th&& o) : p(nullptr) { p = o.p; o.p = nullptr; } Th& operator=(const Th& o) { danger(); int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; return *this; } Th& operator=(Th&& o) { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } ~Th() { delete p; } };
template<> struct K<Th> { static Th make(u64 s) { return Th(int(s % 997)); } static u64 key(const Th& x) { return x.p ? u64(*x.p) : 9999; } static constexpr bool cmp = true; }; TS_REL(Th)
struct Padd { int a; char b; unsigned char PADDING = 0; Padd(int x, char y) : a(x), b(y) {} }; template<> struct K<Padd> { static Padd make(u64 s) { return Padd(int(s % 997), char(s >> 33)); } static u64 key(const Padd& x) { return u64(x.a) * 256 + (unsigned char)x.b; } static constexpr bool cmp = true; }; TS_REL(Padd)
struct Lit { int a; short b; Lit(int x, short y) : a(x), b(y) {} int sum() const { return a + b; } }; template<> struct K<Lit> { static Lit make(u64 s) { return Lit(int(s % 997), short(s >> 33)); } static u64 key(const Lit& x) { return u64(x.a) * 256 + u64(x.b); } static constexpr bool cmp = true; }; TS_REL(Lit)
struct Poly { int a; explicit Poly(int x) : a(x) {} Poly(const Poly&) = default; Poly& operator=(const Poly&) = default; virtual ~Poly() = default; virtual int f() const { return a * 3; } };
template<> struct K<Poly> { static Poly make(u64 s) { return Poly(int(s % 997)); } static u64 key(const Poly& x) { return u64(x.f()); } static constexpr bool cmp = true; }; TS_REL(Poly)
struct Ownr { int v; constexpr Ownr(int x) : v(x) {} }; template<> struct K<Ownr> { static Ownr make(u64 s) { return Ownr(int(s % 997)); } static u64 key(const Ownr& x) { return u64(x.v); } static constexpr bool cmp = true; }; TS_REL(Ownr)
struct Priv { Priv(int x, bool y) : a(x), b(y) {} int a; private: bool b; friend struct K<Priv>; }; template<> struct K<Priv> { static Priv make(u64 s) { return Priv(int(s % 997), s & 1); } static u64 key(const Priv& x) { return u64(x.a) * 2 + x.b; } static constexpr bool cmp = true; }; TS_REL(Priv)
struct Empty0 {}; template<> struct K<Empty0> { static Empty0 make(u64) { return {}; } static u64 key(const Empty0&) { return 4; } static constexpr bool cmp = false; };
template<class T> T mk(u64 s) { return K<T>::make(mix(s)); }
template<class T> inline constexpr bool copies = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
// of every type
template<class T> void properties(Ctx& h) {
    using O = opt::option<T>; h.label("properties"); O a, b; (void)a; (void)b; const O k; (void)k;
    h.n(std::is_nothrow_default_constructible_v<O>); h.n(std::is_copy_constructible_v<O>); h.n(std::is_copy_assignable_v<O>); h.n(std::is_move_constructible_v<O>); h.n(std::is_move_assignable_v<O>);  h.n(std::is_nothrow_move_constructible_v<O>);   h.n(std::is_nothrow_destructible_v<O>);
    h.n(std::is_trivially_copyable_v<O>); h.n(std::is_trivially_destructible_v<O>); h.n(std::is_trivially_copy_constructible_v<O>); h.n(std::is_trivially_move_constructible_v<O>); h.n(std::is_trivially_copy_assignable_v<O>); h.n(std::is_trivially_move_assignable_v<O>); h.n(std::is_constructible_v<O, T>); h.n(std::is_convertible_v<T, O>); h.n(std::is_constructible_v<O, const T&>); h.n(std::is_convertible_v<O, bool>); h.n(std::is_assignable_v<O&, T>); h.n(std::is_constructible_v<opt::option<T&>, T&>); h.n(std::is_convertible_v<O, opt::option<const T&>>); h.n(std::is_constructible_v<O, opt::none_t>); h.n(std::is_constructible_v<O, std::nullptr_t>);
    if constexpr (!std::is_class_v<T>) { h.n(std::is_nothrow_copy_constructible_v<O>); h.n(std::is_nothrow_copy_assignable_v<O>); h.n(std::is_nothrow_move_assignable_v<O>); h.n(std::is_nothrow_swappable_v<O>); h.n(noexcept(a.swap(b))); }
    h.n(noexcept(a.reset())); h.n(noexcept(a.take())); h.n(noexcept(a.get())); h.n(noexcept(a.has_value())); h.n(noexcept(a = opt::none)); h.n(noexcept(a == opt::none)); h.n(noexcept(a.ptr_or_null())); h.n(opt::is_option_v<O>); h.n(opt::is_option_v<T>);
}
template<class T> using option_of = opt::option<T>;
}
template<> struct opt::option_traits<ts::Ownr> { static constexpr std::uintmax_t max_level = 2; static constexpr std::uintmax_t get_level(const ts::Ownr* p) noexcept { return p->v == -1 ? 0 : p->v == -2 ? 1 : 1000; } static constexpr void set_level(ts::Ownr* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } };
