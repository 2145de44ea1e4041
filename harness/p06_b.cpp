// further documented types, and what is documented not to be used
#include "p06_common.hpp"
#include <bitset>
#include <deque>
#include <list>
#include <mutex>
#define S06(T, shrinks) do { ++n; REQUIRE_MSG((sizeof(opt::option<T>) == sizeof(T)) == bool(shrinks), "option<%s> takes %zu bytes, the type takes %zu", #T, sizeof(opt::option<T>), sizeof(T)); REQUIRE(alignof(opt::option<T>) == alignof(T)); if (!(shrinks)) REQUIRE_MSG(sizeof(opt::option<T>) <= sizeof(T) + alignof(T), "option<%s> takes %zu bytes, the type takes %zu", #T, sizeof(opt::option<T>), sizeof(T)); } while (0)
struct Deleter { void operator()(int* p) const { delete p; } };
template<class T> struct StatefulAlloc { using value_type = T; int state = 0; StatefulAlloc() = default; template<class U> StatefulAlloc(const StatefulAlloc<U>&) {} T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t) { ::operator delete(p); } friend bool operator==(const StatefulAlloc&, const StatefulAlloc&) { return true; } friend bool operator!=(const StatefulAlloc&, const StatefulAlloc&) { return false; } };
template<class T> struct EmptyAlloc { using value_type = T; EmptyAlloc() = default; template<class U> EmptyAlloc(const EmptyAlloc<U>&) {} T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t) { ::operator delete(p); } friend bool operator==(const EmptyAlloc&, const EmptyAlloc&) { return true; } friend bool operator!=(const EmptyAlloc&, const EmptyAlloc&) { return false; } };
struct Base1 { int x; }; struct Virt : virtual Base1 { int y; }; struct alignas(32) Big { float f; int i; }; struct alignas(64) Big2 { int i; }; union Un06 { int a; float b; }; class Cls { float f = 0; public: int g() const { return int(f); } }; struct NonAgg { float f; NonAgg(); }; struct Arr { int a; bool b; short c; };
enum class S1 { SENTINEL = 3 }; enum class None0 : unsigned char {}; enum class Full : unsigned char { a = 255 }; enum class Lots : unsigned char { a = 127, b = 3 }; struct Tl { float m; int k; }; struct Der : Arr { bool q; };
using pr_const = std::pair<const int, bool>; using pr_const2 = std::pair<const bool, int>; using tu_e = std::tuple<>; using ar0 = std::array<bool, 0>; using vb = std::vector<bool>; using ups = std::unique_ptr<int, Deleter>; using upa = std::unique_ptr<int[]>; using st1 = std::basic_string<char, std::char_traits<char>, StatefulAlloc<char>>; using st2 = std::basic_string<char, std::char_traits<char>, EmptyAlloc<char>>; using ve1 = std::vector<int, StatefulAlloc<int>>; using ve2 = std::vector<int, EmptyAlloc<int>>; using upv = std::unique_ptr<void, void (*)(void*)>;
using mp1 = int Virt::*; using mp2 = void (Virt::*)(int) const noexcept; using fp = int (*)(int) noexcept; using cpx = std::complex<long double>; using rwf = std::reference_wrapper<int(int)>; using mt = opt::member<NonAgg, &NonAgg::f>; using oref = opt::option<int&>; using pro = std::pair<opt::option<int>, opt::option<bool>>;
static void more(Case& c) {
    u64 n = 0; const bool B = OPTION_USE_BUILTIN_TRAITS; bool R = false;
#ifdef OPTION_HAS_PFR
    R = B;
#endif
    S06(upa, B); S06(ups, false); S06(upv, false); S06(st1, false); S06(st2, B); S06(ve1, false); S06(ve2, B); S06(std::pmr::string, false); S06(std::pmr::vector<int>, false);
    S06(pr_const, B); S06(pr_const2, false); S06(mp1, B); S06(mp2, B); S06(fp, B); S06(rwf, B); S06(mt, B); S06(oref, B); S06(pro, B);
    S06(Big, R); S06(Big2, false); S06(Cls, false); S06(NonAgg, false); S06(Arr, R); S06(S1, B); S06(None0, false); S06(Full, false); S06(Lots, B); S06(long double, false); S06(char16_t, false); S06(std::mutex, false); S06(std::bitset<8>, false); S06(std::monostate, false); S06(__int128, false);
    opt::option<const float> a; opt::option<const bool> b; opt::option<const std::string> s; (void)a; (void)b; (void)s; REQUIRE((sizeof a == sizeof(float)) == B && (sizeof b == 1) == B && (sizeof s == sizeof(std::string)) == B);
    REQUIRE(sizeof(opt::option<int&>) == sizeof(void*) && sizeof(opt::option<const std::string&>) == sizeof(void*) && sizeof(opt::option<Big2&>) == sizeof(void*) && sizeof(opt::option<int(&)(int)>) == sizeof(void*) && sizeof(opt::option<opt::option<int>&>) == sizeof(void*));
    if (B) { REQUIRE(sizeof(opt::option<opt::option<int&>>) == sizeof(void*)); using O4 = opt::option<opt::option<opt::option<opt::option<int&>>>>; REQUIRE(sizeof(O4) == sizeof(void*)); }
    pbt::count_evals(n, n); c.nontrivial();
}
REG_ONCE("sizes of further types", more);
