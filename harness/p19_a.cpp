// Reference options (availability by can_bind_reference), standard contained types, swapping options of different types.
#include "p19_common.hpp"
#include <variant>
namespace {
struct RB { int x = 0; virtual ~RB() = default; }; struct RD : RB { int y = 0; }; struct Conv { operator int&() const { static int i; return i; } operator RB&() const { static RB b; return b; } };
// docs/reference.md, can_bind_reference<X, Y>
template<class X, class Y> constexpr bool can_bind() {
    using RX = std::remove_reference_t<X>; using RY = std::remove_reference_t<Y>;
    if (std::is_same_v<RY, std::reference_wrapper<std::remove_const_t<RX>>> || std::is_same_v<RY, std::reference_wrapper<RX>>) return true;
    return std::is_convertible_v<RY*, RX*> && std::is_lvalue_reference_v<X> == std::is_lvalue_reference_v<Y>;
}
template<class T, class Q> void ref_value(const char* tn, const char* qn) {
    using O = opt::option<T>; constexpr bool cb = can_bind<T, Q>() && !std::is_same_v<rcvr<Q>, std::in_place_t>;
    auto t = [&](const char* what, bool got, bool want) { if (got != want) FAIL("option<%s> %s %s: %s, documented %s", tn, what, qn, got ? "yes" : "no", want ? "yes" : "no"); };
    t("is constructible from", std::is_constructible_v<O, Q>, cb); t("is implicitly convertible from", std::is_convertible_v<Q, O>, cb); t("is assignable from", std::is_assignable_v<O&, Q>, cb);
    t("is constructible from two of", std::is_constructible_v<O, Q, Q>, false);
    pbt::count_evals(4, 4);
}
template<class T, class U, class Qo> void ref_option(const char* tn, const char* un, const char* cat) {
    using O = opt::option<T>; constexpr bool same = std::is_same_v<T, U>; constexpr bool cb = same || can_bind<T, U>();
    auto t = [&](const char* what, bool got, bool want) { if (got != want) FAIL("option<%s> %s option<%s>%s: %s, documented %s", tn, what, un, cat, got ? "yes" : "no", want ? "yes" : "no"); };
    t("is constructible from", std::is_constructible_v<O, Qo>, cb); t("is implicitly convertible from", std::is_convertible_v<Qo, O>, cb); t("is assignable from", std::is_assignable_v<O&, Qo>, cb);
    pbt::count_evals(3, 3);
}
template<class T, class U> void ref_pair(const char* tn, const char* un) {
    ref_value<T, U>(tn, un);
    if constexpr (std::is_reference_v<U>) { using Q = opt::option<U>; ref_option<T, U, Q&>(tn, un, "&"); ref_option<T, U, const Q&>(tn, un, " const&"); ref_option<T, U, Q>(tn, un, "&&"); }
    else if constexpr (std::is_lvalue_reference_v<T>) { using Q = opt::option<U>; ref_option<T, U, Q&>(tn, un, "&"); ref_option<T, U, const Q&>(tn, un, " const&"); ref_option<T, U, Q>(tn, un, "&&"); }
}
template<class T, class... U> void ref_row(Case& c, const char* tn, const char* const* un) { std::size_t i = 0; (ref_pair<T, U>(tn, un[i++]), ...); c.nontrivial(); }
#define US int&, const int&, int, const int, RB&, const RB&, RD&, const RD&, RB, RD, Conv&, const Conv&, std::reference_wrapper<int>, std::reference_wrapper<const int>, std::reference_wrapper<int>&, const std::reference_wrapper<const int>&, std::reference_wrapper<RB>, std::reference_wrapper<RD>&, void*&, double&, int*&
const char* const us[] = {"int&", "const int&", "int", "const int", "RB&", "const RB&", "RD&", "const RD&", "RB", "RD", "Conv&", "const Conv&", "reference_wrapper<int>", "reference_wrapper<const int>", "reference_wrapper<int>&", "const reference_wrapper<const int>&", "reference_wrapper<RB>", "reference_wrapper<RD>&", "void*&", "double&", "int*&"};
#define ROW(...) REG_ONCE("reference option " #__VA_ARGS__, ([](Case& c) { ref_row<__VA_ARGS__, US>(c, #__VA_ARGS__, us); mirror<__VA_ARGS__>(#__VA_ARGS__); }));
ROW(int&) ROW(const int&) ROW(RB&) ROW(const RB&) ROW(RD&) ROW(int&&) ROW(const int&&) ROW(RB&&) ROW(double&) ROW(int*&)
struct NoMove { int i; NoMove(int x) : i(x) {} NoMove(const NoMove&) = delete; NoMove& operator=(const NoMove&) = delete; };
struct MoveOnly { std::unique_ptr<int> p; float f; }; struct Agg { int a; float b; bool c; }; struct AggConst { const int a; float b; }; struct AggRef { int& r; float b; }; struct AggStr { std::string s; int i; };
struct Poly19 { virtual ~Poly19() = default; int i = 0; }; struct PolyT { virtual void f() {} int i = 0; }; enum class En19 : unsigned char { a, b }; union Un19 { int i; float f; };
}
#define M1(...) REG_ONCE("special members " #__VA_ARGS__, (+[](Case& c) { mirror<__VA_ARGS__>(#__VA_ARGS__); c.nontrivial(); }));
M1(int) M1(bool) M1(float) M1(const int) M1(const bool) M1(int*) M1(int NoMove::*) M1(En19) M1(Un19) M1(std::string) M1(const std::string) M1(std::string_view) M1(std::vector<int>) M1(std::unique_ptr<int>) M1(const std::unique_ptr<int>) M1(std::shared_ptr<int>)
M1(std::pair<int, bool>) M1(std::pair<const int, bool>) M1(std::pair<int, std::string>) M1(std::tuple<>) M1(std::tuple<int, float>) M1(std::tuple<std::unique_ptr<int>, int>) M1(std::array<int, 3>) M1(std::array<std::string, 2>) M1(std::array<int, 0>) M1(std::reference_wrapper<int>)
M1(NoMove) M1(Agg) M1(AggStr) M1(Poly19) M1(PolyT) M1(std::variant<int, bool>) M1(std::optional<int>) M1(std::optional<std::string>) M1(std::any) M1(std::function<int()>) M1(opt::option<int>) M1(opt::option<bool>) M1(opt::option<std::string>) M1(opt::option<std::unique_ptr<int>>) M1(opt::option<int&>) M1(opt::option<opt::option<opt::option<int>>>)
M1(opt::sentinel<int, -1>) M1(opt::sentinel<int, -1, -2>) M1(opt::enforce<bool>) M1(opt::enforce<std::string>) M1(std::nullptr_t) M1(std::monostate)
// opt::swap of options of different types is available as documented
template<class T, class U> static void swap2(const char* n) {
    constexpr bool m = std::is_move_constructible_v<T> && std::is_move_constructible_v<U>; constexpr bool sw = m && std::is_swappable_with_v<T&, U&>; constexpr bool nsw = sw && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<U> && std::is_nothrow_swappable_with_v<T&, U&>;
    if (opt_swap<opt::option<T>, opt::option<U>>::value != sw) FAIL("opt::swap of %s: %d, documented %d", n, !sw, sw); if (opt_swap<opt::option<T>, opt::option<U>>::nothrow != nsw) FAIL("noexcept of opt::swap of %s: %d, documented %d", n, !nsw, nsw);
}
namespace { struct Sw1 { int v; }; struct Sw2 { Sw2(Sw1); operator Sw1() const; int v; }; struct Sw3 { Sw3(Sw3&&); int v; }; inline void swap(Sw1&, Sw2&) noexcept {} inline void swap(Sw2&, Sw1&) {} inline void swap(Sw1&, Sw3&) noexcept {} inline void swap(Sw3&, Sw1&) noexcept {} }
static void swaps(Case& c) { swap2<int, int>("int, int"); swap2<int, long>("int, long"); swap2<Sw1, Sw2>("Sw1, Sw2"); swap2<Sw2, Sw1>("Sw2, Sw1"); swap2<Sw1, Sw3>("Sw1, Sw3"); swap2<Sw3, Sw1>("Sw3, Sw1"); swap2<NoMove, NoMove>("NoMove, NoMove"); swap2<std::string, std::string>("string, string"); swap2<const int, const int>("const int, const int"); swap2<std::unique_ptr<int>, std::unique_ptr<int>>("unique_ptr, unique_ptr"); swap2<AggStr, AggStr>("AggStr, AggStr"); c.nontrivial(); }
REG_ONCE("swap of options of different types", swaps);
