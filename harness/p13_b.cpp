#include "p13_common.hpp"
using upi = std::unique_ptr<int>;
template<class... T> using tup = std::tuple<T...>;
#define U(...) REG("unzip " #__VA_ARGS__, (&unzips<__VA_ARGS__>));
U(std::pair<int, float>) U(std::pair<bool, std::string>) U(std::pair<TrackedN<1>, TrackedN<2>>) U(std::tuple<int>) U(std::tuple<bool, double, upi>) U(std::tuple<TrackedN<1>, std::string, TrackedN<2>, int, bool>)
U(std::array<int, 3>) U(std::array<bool, 1>) U(std::array<TrackedN<1>, 4>) U(std::array<upi, 2>) U(std::array<std::string, 2>) U(std::pair<const int, const std::string>) U(const std::pair<int, std::string>) U(std::pair<int, std::string>&) U(std::tuple<opt::option<bool>, opt::option<int>>) U(std::pair<MoveOnly, MoveOnly>) U(std::tuple<std::pair<int, bool>, std::array<float, 2>>) U(const std::array<TrackedN<1>, 2>)
#define F(T) REG("flatten 1 " #T, (&flat<T, 1>)); REG("flatten 2 " #T, (&flat<T, 2>)); REG("flatten 3 " #T, (&flat<T, 3>)); REG("flatten 5 " #T, (&flat<T, 5>));
using pib = std::pair<int, bool>;
F(int) F(bool) F(double) F(std::string) F(TrackedN<1>) F(upi) F(int&) F(std::string&) F(E8) F(pib) F(int*) F(sent_int) F(UT) F(AggIF) F(const int) F(MoveOnly)
template<> struct Ty<HostD> { static HostD make(u64 s) { HostD h; h.a = int(s); h.b = h.c = 1; h.d = s; h.e = int(mix(s)); h.z = 4; return h; } static bool same(const HostD& v, u64 s) { return v.a == int(s) && v.d == s && v.e == int(mix(s)) && v.z == 4; } static const char* name() { return "HostD"; } };
template<> struct Ty<const char*> { static const char* make(u64 s) { return g_text + s % 62; } static bool same(const char* v, u64 s) { return v == g_text + s % 62; } static const char* name() { return "const char*"; } };
struct Ex { u64 v; explicit Ex(const TrackedN<1>& t) : v(t.v) {} explicit Ex(TrackedN<1>&& t) : v(t.v) { t.v = MOVED; } bool operator==(const Ex& o) const { return v == o.v; } };
struct Ops13 { u64 v; explicit operator long() const { return long(v * 3); } explicit operator bool() const { return v & 1; } operator std::string() const { return std::to_string(v); } };
template<> struct Ty<Ops13> { static Ops13 make(u64 s) { return {s}; } static bool same(const Ops13& v, u64 s) { return v.v == s; } static const char* name() { return "Ops"; } };
#define CA(To, From) REG("option_cast " #From " to " #To, (&casts<To, From>));
CA(long, int) CA(unsigned char, int) CA(int, unsigned char) CA(bool, int) CA(int, bool) CA(double, int) CA(double, float) CA(int, E8) CA(unsigned, E32) CA(std::string, const char*) CA(std::string_view, std::string&) CA(Ex, TrackedN<1>) CA(TrackedN<1>, TrackedN<1>) CA(long, Ops13) CA(bool, Ops13) CA(std::string, Ops13) CA(bool, opt::option<int>) CA(opt::option<int>, int) CA(int, const int) CA(bool, bool) CA(bool, int*) CA(const void*, int*)
CA(Host&, HostD&) CA(const HostD&, HostD&) CA(Host2&, HostD&) CA(std::shared_ptr<int>, upi) CA(int, sent_int) CA(Ex, const TrackedN<1>)
