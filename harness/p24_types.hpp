// Conversions between options of scalar, standard and polymorphic types, against std::optional.
#pragma once
#include "p24_common.hpp"
namespace {
struct Base { int b = 0; Base() = default; explicit Base(int x) : b(x) {} virtual ~Base() = default; };
struct Derived : Base { int d = 0; Derived() = default; explicit Derived(int x) : Base(x), d(x + 1) {} };
enum Un { ua, ub, uc }; enum class Sc { a, b, c };
[[maybe_unused]] inline std::string text(int v) { return std::string(std::size_t(v % 40), char('a' + v % 26)); }
void code_(long x, conv::Out& o) { o.push_back(x); }
void code_(double x, conv::Out& o) { o.push_back(long(bits_of(x))); }
void code_(float x, conv::Out& o) { o.push_back(long(bits_of(x))); }
template<class T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0> void code_(T x, conv::Out& o) { o.push_back(long(x)); }
void code_(const std::string& s, conv::Out& o) { o.push_back(long(s.size())); for (char x : s) o.push_back(x); }
void code_(std::string_view s, conv::Out& o) { code_(std::string(s), o); }
void code_(const char* s, conv::Out& o) { code_(std::string(s), o); }
template<class D> void code_(const std::unique_ptr<Base, D>& p, conv::Out& o) { o.push_back(p ? p->b : -7); }
void code_(const std::unique_ptr<Derived>& p, conv::Out& o) { o.push_back(p ? p->b : -7); }
void code_(const std::shared_ptr<Base>& p, conv::Out& o) { o.push_back(p ? p->b + 1000 * p.use_count() : -7); }
void code_(const std::shared_ptr<Derived>& p, conv::Out& o) { o.push_back(p ? p->b + 1000 * p.use_count() : -7); }
void code_(const std::shared_ptr<const Base>& p, conv::Out& o) { o.push_back(p ? p->b + 1000 * p.use_count() : -7); }
void code_(const Base& p, conv::Out& o) { o.push_back(p.b); }
void code_(const Base* p, conv::Out& o) { o.push_back(p->b); }
void code_(const void* p, conv::Out& o) { o.push_back(static_cast<const Derived*>(p)->b); }
template<class A, class B> void code_(const std::pair<A, B>& p, conv::Out& o) { code_(p.first, o); code_(p.second, o); }
template<class A, class B> void code_(const std::tuple<A, B>& p, conv::Out& o) { code_(std::get<0>(p), o); code_(std::get<1>(p), o); }
template<class... A> void code_(const std::variant<A...>& v, conv::Out& o) { o.push_back(long(v.index())); }
template<class S> void code_(const std::function<S>& f, conv::Out& o) { o.push_back(bool(f)); if (f) o.push_back(f(3)); }
void code_(int (*f)(int), conv::Out& o) { o.push_back(f(3)); }
int twice(int x) { return 2 * x; }
template<class T, class = void> struct Mk { static T make(int v) { return T(v); } };
template<> struct Mk<std::string> { static std::string make(int v) { return text(v); } };
template<> struct Mk<std::string_view> { static std::string_view make(int v) { static const char s[] = "abcdefghijklmnopqrstuvwxyz"; return {s, std::size_t(v % 26)}; } };
template<> struct Mk<const char*> { static const char* make(int v) { static const char* const s[] = {"", "x", "hello", "0123456789012345678901234567890123456789"}; return s[v % 4]; } };
template<class T> struct Mk<std::unique_ptr<T>> { static std::unique_ptr<T> make(int v) { return v % 5 ? std::make_unique<T>(v) : nullptr; } };
template<class T> struct Mk<std::shared_ptr<T>> { static std::shared_ptr<T> make(int v) { return v % 5 ? std::make_shared<std::remove_const_t<T>>(v) : nullptr; } };
template<> struct Mk<Un> { static Un make(int v) { return Un(v % 3); } };
template<> struct Mk<Sc> { static Sc make(int v) { return Sc(v % 3); } };
template<class T> struct Mk<T*, std::enable_if_t<!std::is_function_v<T> && !std::is_same_v<T, const char>>> { static T* make(int v) { static Derived d[3] = {Derived(1), Derived(2), Derived(3)}; return &d[v % 3]; } };
template<> struct Mk<int (*)(int)> { static auto make(int) -> int (*)(int) { return &twice; } };
template<class S> struct Mk<std::function<S>> { static std::function<S> make(int v) { if (v % 3 == 0) return nullptr; return [v](int x) { return x + v; }; } };
template<class A, class B> struct Mk<std::pair<A, B>> { static std::pair<A, B> make(int v) { return {Mk<A>::make(v), Mk<B>::make(v / 7)}; } };
template<class A, class B> struct Mk<std::tuple<A, B>> { static std::tuple<A, B> make(int v) { return {Mk<A>::make(v), Mk<B>::make(v / 7)}; } };
template<class A, class... B> struct Mk<std::variant<A, B...>> { static std::variant<A, B...> make(int v) { return Mk<A>::make(v); } };
template<class A, class B, int L> struct Fixed {
    static constexpr bool light = true;
    template<template<class> class> using To = A; template<template<class> class> using From = B;
    static const char* label() { static const std::string s = "pair of types number " + std::to_string(L); return s.c_str(); }
    template<template<class> class O> static B make(int v) { return Mk<B>::make(v); } template<template<class> class O> static A dst(int v) { return Mk<A>::make(v); }
    template<template<class> class O> static void start() {} template<template<class> class O> static long events() { return 0; }
    template<class X> static void code(const X& x, conv::Out& o) { code_(x, o); }
};
#define PAIR(...) REG("conversions of " #__VA_ARGS__, (&conv::test<Fixed<__VA_ARGS__, __COUNTER__>>))
}
