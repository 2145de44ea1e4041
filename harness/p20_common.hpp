// Programs over options that are evaluated both as constants and at run time.
#pragma once
#include <opt/option.hpp>
#ifndef PBT_TRANSCRIPT
#include "pbt.hpp"
#else
#include "p21_common.hpp"
namespace pbt { using Case = ts::Ctx; template<class T> inline void opaque(T& x) { asm volatile("" : : "r"(&x) : "memory"); } }
#endif
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#if __cplusplus >= 202002L
#define CX20 1
#else
#define CX20 0
#endif
#ifdef OPTION_USE_BUILTIN_TRAITS
#if !OPTION_USE_BUILTIN_TRAITS
#define CX_FLAGS 1
#endif
#endif
#ifndef CX_FLAGS
#define CX_FLAGS 0
#endif
namespace cx {
using u64 = std::uint64_t; using pbt::Case;
constexpr u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
// T and how to make a value of it and to look at it
template<class T> struct K;
template<class T> struct KInt { static constexpr T make(u64 s) { return T(s % 3 == 0 ? s % 4 : s); } static constexpr u64 key(const T& x) { return u64(x) * 3 + 1; } };
template<> struct K<int> : KInt<int> {}; template<> struct K<unsigned char> : KInt<unsigned char> {}; template<> struct K<long long> : KInt<long long> {}; template<> struct K<char32_t> : KInt<char32_t> {}; template<> struct K<short> : KInt<short> {}; template<> struct K<bool> { static constexpr bool make(u64 s) { return s & 4; } static constexpr u64 key(bool x) { return x ? 5 : 8; } };
template<> struct K<double> { static constexpr double make(u64 s) { return double(s % 1000) / 8; } static constexpr u64 key(double x) { return u64(x * 8) + 77; } };
struct Lit { int a; short b; constexpr Lit(int x, short y) : a(x), b(y) {} constexpr explicit Lit(int x) : a(x), b(3) {} constexpr int sum() const { return (a & 0xffff) + b; } };
constexpr bool operator==(const Lit& x, const Lit& y) { return x.a == y.a && x.b == y.b; } constexpr bool operator!=(const Lit& x, const Lit& y) { return !(x == y); } constexpr bool operator<(const Lit& x, const Lit& y) { return x.a != y.a ? x.a < y.a : x.b < y.b; } constexpr bool operator>(const Lit& x, const Lit& y) { return y < x; } constexpr bool operator<=(const Lit& x, const Lit& y) { return !(y < x); } constexpr bool operator>=(const Lit& x, const Lit& y) { return !(x < y); }
template<> struct K<Lit> { static constexpr Lit make(u64 s) { return Lit(int(s % 1009), short(s >> 20)); } static constexpr u64 key(const Lit& x) { return u64(x.a) * 31 + u64(x.b); } };
struct Agg { int x; unsigned char y; int z[2]; };
#define CX_CMP(T, ...) constexpr auto tie_(const T& v) { return u64(__VA_ARGS__); } constexpr bool operator==(const T& a, const T& b) { return tie_(a) == tie_(b); } constexpr bool operator!=(const T& a, const T& b) { return tie_(a) != tie_(b); } constexpr bool operator<(const T& a, const T& b) { return tie_(a) < tie_(b); } constexpr bool operator>(const T& a, const T& b) { return tie_(a) > tie_(b); } constexpr bool operator<=(const T& a, const T& b) { return tie_(a) <= tie_(b); } constexpr bool operator>=(const T& a, const T& b) { return tie_(a) >= tie_(b); }
struct Ag { int x; unsigned short y; }; CX_CMP(Ag, u64(v.x) * 70001 + v.y)
template<> struct K<Ag> { static constexpr Ag make(u64 s) { return Ag{int(s % 1013), (unsigned short)(s >> 13)}; } static constexpr u64 key(const Ag& x) { return tie_(x); } };
// copy operations of its own, which leave a mark; trivially destructible
struct Cp { int a; int mark; constexpr Cp(int x) : a(x), mark(0) {} constexpr Cp(const Cp& o) : a(o.a), mark(o.mark + 1) {} constexpr Cp(Cp&& o) noexcept : a(o.a), mark(o.mark) { o.a = -1; } constexpr Cp& operator=(const Cp& o) { a = o.a; mark = o.mark + 10000; return *this; } constexpr Cp& operator=(Cp&& o) noexcept { a = o.a; mark = o.mark; o.a = -2; return *this; } }; CX_CMP(Cp, u64(v.a))
template<> struct K<Cp> { static constexpr Cp make(u64 s) { return Cp(int(s % 499)); } static constexpr u64 key(const Cp& x) { return u64(x.a) * 1000003 + u64(x.mark); } };
enum class Sg : int { a, b, c, d = -5 };
template<> struct K<Sg> { static constexpr Sg make(u64 s) { constexpr Sg all[] = {Sg::a, Sg::b, Sg::c, Sg::d}; return all[s % 4]; } static constexpr u64 key(Sg x) { return u64(int(x) + 100); } };
using Pr = std::pair<int, short>; template<> struct K<Pr> { static constexpr Pr make(u64 s) { return Pr(int(s % 1000), short(s >> 30)); } static constexpr u64 key(const Pr& x) { return u64(x.first) * 65537 + u64(x.second); } };
using Ar = std::array<int, 3>; template<> struct K<Ar> { static constexpr Ar make(u64 s) { return Ar{{int(s % 1000), int(s >> 40), 7}}; } static constexpr u64 key(const Ar& x) { return u64(x[0]) * 65537 + u64(x[1]) * 5 + u64(x[2]); } };
using Tu = std::tuple<int, unsigned, short>; template<> struct K<Tu> { static constexpr Tu make(u64 s) { return Tu(int(s % 1000), unsigned(s), short(s >> 9)); } static constexpr u64 key(const Tu& x) { return u64(std::get<0>(x)) * 65537 + std::get<1>(x) + u64(std::get<2>(x)); } };
// states of its own
struct Tr { int v; constexpr Tr(int x) : v(x) {} }; CX_CMP(Tr, u64(v.v))
template<> struct K<Tr> { static constexpr Tr make(u64 s) { return Tr(int(s % 1000)); } static constexpr u64 key(const Tr& x) { return u64(x.v); } };
enum class Se : unsigned char { a, b, SENTINEL, c };
template<> struct K<Se> { static constexpr Se make(u64 s) { constexpr Se all[] = {Se::a, Se::b, Se::c}; return all[s % 3]; } static constexpr u64 key(Se x) { return u64(x) + 100; } };
#if CX20
// allocates; every evaluation as a constant checks that everything is released exactly once
struct Own { int* p; constexpr explicit Own(int x) : p(new int(x)) {} constexpr Own(const Own& o) : p(o.p ? new int(*o.p + 1000) : nullptr) {} constexpr Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; } constexpr Own& operator=(const Own& o) { if (this != &o) { int* q = o.p ? new int(*o.p + 2000) : nullptr; delete p; p = q; } return *this; } constexpr Own& operator=(Own&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } constexpr ~Own() { delete p; } }; CX_CMP(Own, v.p ? u64(*v.p) % 1000 : 999)
template<> struct K<Own> { static constexpr Own make(u64 s) { return Own(int(s % 503)); } static constexpr u64 key(const Own& x) { return x.p ? u64(*x.p) : 3; } };
struct Mo { int* p; constexpr explicit Mo(int x) : p(new int(x)) {} constexpr Mo(Mo&& o) noexcept : p(o.p) { o.p = nullptr; } constexpr Mo& operator=(Mo&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } constexpr ~Mo() { delete p; } }; CX_CMP(Mo, v.p ? u64(*v.p) % 1000 : 999)
template<> struct K<Mo> { static constexpr Mo make(u64 s) { return Mo(int(s % 503)); } static constexpr u64 key(const Mo& x) { return x.p ? u64(*x.p) : 3; } };
#endif
#if CX_FLAGS
#if CX20
template<> struct K<std::string> { static std::string constexpr make(u64 s) { return std::string(s % 40, char('a' + s % 26)); } static constexpr u64 key(const std::string& x) { return x.size() * 256 + (x.empty() ? 0 : u64(x[0])); } };
template<> struct K<std::vector<int>> { static std::vector<int> constexpr make(u64 s) { return std::vector<int>(s % 5, int(s % 1000)); } static constexpr u64 key(const std::vector<int>& x) { return x.size() * 1024 + (x.empty() ? 0 : u64(x[0])); } };
#endif
using On = opt::option<int>; template<> struct K<On> { static constexpr On make(u64 s) { return s % 3 ? On(int(s % 1000)) : On(); } static constexpr u64 key(const On& x) { return x.has_value() ? u64(x.get()) + 5 : 4; } };
using Bp = std::pair<bool, int>; template<> struct K<Bp> { static constexpr Bp make(u64 s) { return Bp(s & 1, int(s % 1000)); } static constexpr u64 key(const Bp& x) { return u64(x.first) * 5000 + u64(x.second); } };
#endif
template<class T> constexpr T mk(u64 s) { return K<T>::make(mix(s)); }
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
// what a program observed
struct H {
    u64 x = 1469598103934665603ull;
    constexpr void n(u64 v) { x = (x ^ v) * 1099511628211ull; x ^= x >> 29; }
    template<class T> constexpr void v(const T& t) { n(K<bare<T>>::key(t)); }
    template<class T> constexpr void o(const opt::option<T>& t) { n(t.has_value() ? 11 : 12); n(bool(t) ? 1 : 2); n(t == opt::none ? 3 : 4); if (t.has_value()) v(t.get()); }
};
template<std::size_t N> struct Results { u64 r[N]{}; };
template<std::size_t N> constexpr Results<N> evaluate(u64 (*f)(u64), u64 seed) { Results<N> a; for (std::size_t i = 0; i < N; ++i) a.r[i] = f(seed + i); return a; }
#ifndef PBT_TRANSCRIPT
template<u64 (*F)(u64), u64 Seed, std::size_t N> inline void compare(Case& c, const Results<N>& constant, const char* what) {
    const std::size_t i = c.pick(N); u64 s = Seed + i; pbt::opaque(s); c.log("%s, input %zu", what, i); const u64 now = F(s); REQUIRE_MSG(now == constant.r[i], "program %s: the constant and the run-time results differ for input %zu", what, i); c.nontrivial();
}
#define CX_PROGRAM(NAME, SEED, WHAT) static constexpr cx::Results<8> NAME##_r = cx::evaluate<8>(&NAME, SEED); static void NAME##_t(pbt::Case& c) { cx::compare<&NAME, SEED>(c, NAME##_r, WHAT); } REG("program " WHAT, &NAME##_t)
#else
template<u64 (*F)(u64), u64 Seed, std::size_t N> inline void transcript(ts::Ctx& h, const Results<N>& constant) { for (std::size_t i = 0; i < N; ++i) { u64 s = Seed + i; pbt::opaque(s); h.label("input"); h.n(F(s)); h.n(constant.r[i]); } ts::steps_done += N; }
#define CX_PROGRAM(NAME, SEED, WHAT) static constexpr cx::Results<8> NAME##_r = cx::evaluate<8>(&NAME, SEED); static void NAME##_t(ts::Ctx& c) { cx::transcript<&NAME, SEED>(c, NAME##_r); } TS_REG("program " WHAT, &NAME##_t, 1)
#endif
}
template<> struct opt::option_traits<cx::Tr> { static constexpr std::uintmax_t max_level = 2; static constexpr std::uintmax_t get_level(const cx::Tr* p) noexcept { return p->v == -1 ? 0 : p->v == -2 ? 1 : 1000; } static constexpr void set_level(cx::Tr* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } };
