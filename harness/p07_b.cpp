#include "p07_common.hpp"
LV(B07(254), std::pair<bool, int>) LV(B07(254), std::pair<int, bool>) LV(B07(256), std::pair<bool, float>) LV(B07(256), std::pair<float, bool>) LV(B07(256), std::tuple<int, float, bool>) LV(B07(512), std::tuple<int*, float, bool>) LV(B07(512), std::tuple<bool, float, int*>) LV(0, std::pair<int, int>) LV(0, std::tuple<int, char>) LV(B07(255), std::tuple<std::string>)
LV(B07(254), std::array<bool, 3>) LV(B07(256), std::array<double, 2>) LV(0, std::array<int, 3>) LV(R07(256), AggIF) LV(0, Un) LV(R07(254), AggUn) LV(R07(255), AggSB) LV(R07(256), AggNested) LV(R07(256), std::pair<AggIF, int>) LV(R07(256), std::array<AggIF, 2>) LV(0, ConstMember)
LV(B07(253), opt::option<bool>) LV(B07(252), opt::option<opt::option<bool>>) LV(B07(254), opt::option<int>) LV(B07(253), opt::option<opt::option<int>>) LV(B07(511), opt::option<int*>) LV(B07(255), opt::option<double>) LV(B07(254), opt::option<std::string>) LV(B07(253), opt::option<opt::option<std::string>>) LV(B07(254), opt::option<std::unique_ptr<int>>) LV(B07(10), opt::option<ESE>) LV(B07(9), opt::option<opt::option<ESE>>) LV(B07(0), opt::option<ES>) LV(B07(254), opt::option<opt::option<ES>>) LV(B07(2), opt::option<sent_int3>) LV(B07(1), opt::option<opt::option<sent_int3>>) LV(B07(0), opt::option<sent_int>) LV(B07(2), opt::option<UT>) LV(B07(1), opt::option<UTN<false>>)
LV(B07(254), std::pair<opt::option<int>, int>) LV(R07(255), std::array<opt::option<AggIF>, 2>) LV(B07(255), opt::option<std::pair<double, opt::option<int>>>) LV(B07(253), std::tuple<int, opt::option<bool>>) LVX(opt::option<E8>)
using mem_f = opt::member<AggIF, &AggIF::f>; using enf_f = opt::enforce<float>;
template<> struct Ty<mem_f> { static mem_f make(u64 s) { return mem_f(Ty<AggIF>::make(s)); } static bool same(const mem_f& v, u64 s) { return Ty<AggIF>::same(v.m, s); } static const char* name() { return "member<AggIF, f>"; } };
#if OPTION_USE_BUILTIN_TRAITS
template<> struct Ty<enf_f> { static enf_f make(u64 s) { return enf_f(Ty<float>::make(s)); } static bool same(const enf_f& v, u64 s) { return Ty<float>::same(v.m, s); } static const char* name() { return "enforce<float>"; } };
LV(B07(256), enf_f)
#endif
LV(B07(256), mem_f)
// levels of options of references: only through nesting
template<class R> static void ref_levels(Case& c) {
    using O = opt::option<R&>; using Tr = opt::option_traits<O>; alignas(O) unsigned char b[sizeof(O)]; O* p = reinterpret_cast<O*>(b);
    REQUIRE(Tr::max_level >= 255); std::uintmax_t n = c.pick(255); std::memset(b, 0x77, sizeof b); Tr::set_level(p, n); pbt::opaque(b); REQUIRE_MSG(Tr::get_level(p) == n, "option<T&>: level %llu reads as %llu", (unsigned long long)n, (unsigned long long)Tr::get_level(p));
    R v{}; O full{v}, none; REQUIRE(Tr::get_level(&full) >= Tr::max_level && Tr::get_level(&none) >= Tr::max_level);
    opt::option<O> oo; REQUIRE(!oo.has_value()); oo.emplace(); REQUIRE(oo.has_value() && !oo->has_value()); oo.emplace(v); REQUIRE(oo.has_value() && oo->has_value() && std::addressof(**oo) == std::addressof(v)); *oo = opt::none; REQUIRE(oo.has_value() && !oo->has_value()); oo = opt::none; REQUIRE(!oo.has_value()); c.nontrivial();
}
#if OPTION_USE_BUILTIN_TRAITS
REG("levels option<int&>", (&ref_levels<int>)); REG("levels option<char&>", (&ref_levels<char>)); REG("levels option<const std::string&>", (&ref_levels<std::string>));
#endif
