#include "p07_common.hpp"
LV(B07(254), bool) LV(B07(256), float) LV(B07(256), double) LV(B07(512), int*) LV(B07(512), const char*) LV(B07(512), void*) LV(B07(512), const void*) LV(B07(512), void (*)()) LV(B07(512), int (*)(int, char)) LV(B07(512), int**)
LV(0, int) LV(0, unsigned char) LV(0, char) LV(0, short) LV(0, u64) LV(0, Empty) LV(0, std::shared_ptr<int>) LV(0, TriNoDef)
LV(B07(255), std::string_view) LV(B07(255), std::wstring_view) LV(B07(255), std::unique_ptr<int>) LV(B07(255), std::unique_ptr<int[]>) LV(B07(255), PlainVec) LV(B07(255), PlainStr) LV(B07(255), std::vector<bool>) LV(B07(255), std::string) LV(B07(255), std::wstring) LV(B07(255), std::u16string) LV(B07(255), std::u32string) LV(B07(255), std::vector<int>) LV(B07(255), std::vector<std::string>)
LV(B07(255), int Host::*) LV(B07(255), u64 Host::*) LV(B07(255), int (Host::*)(int)) LV(B07(255), int (Host::*)(int) const) LV(B07(256), std::reference_wrapper<int>) LV(B07(255), Poly) LV(B07(255), PolyD)
LV(B07(1), ES) LV(B07(6), ESS) LV(B07(11), ESE) LVX(E8) LVX(E32) LVX(EU) LV(B07(255), Padded) LV(B07(65535), Padded16)
LV(B07(256), std::complex<float>) LV(B07(256), std::complex<double>) LV(1, sent_int) LV(3, sent_int3) LV(3, UT) LV(2, UTN<false>)
// docs/macros.md: the payloads of signaling NaNs are the levels of floating point numbers, those of quiet NaNs with OPTION_USE_QUIET_NAN
#if OPTION_USE_BUILTIN_TRAITS
template<class F, class B> static void nan_kind(Case& c, B quiet_bit) {
    constexpr std::uintmax_t max = opt::option_traits<F>::max_level;
    for (std::uintmax_t l = 0; l < max; ++l) {
        LevelBuf<F> x(0x5a); opt::option_traits<F>::set_level(x.p(), l); B b; std::memcpy(&b, x.b, sizeof b);
        constexpr B mant = (B(1) << (std::numeric_limits<F>::digits - 1)) - 1; constexpr B expo = B(~mant) & B(~(B(1) << (sizeof(B) * 8 - 1)));
        REQUIRE_MSG((b & expo) == expo && (b & mant) != 0, "level %llu is not a NaN but %llx", (unsigned long long)l, (unsigned long long)b);
        REQUIRE_MSG(((b & quiet_bit) != 0) == bool(OPTION_USE_QUIET_NAN), "level %llu is %llx: OPTION_USE_QUIET_NAN=%d demands the other kind of NaN", (unsigned long long)l, (unsigned long long)b, int(OPTION_USE_QUIET_NAN));
    }
    pbt::count_evals(max, max); c.nontrivial();
}
static void nan_kinds(Case& c) { nan_kind<float, std::uint32_t>(c, 1u << 22); nan_kind<double, u64>(c, 1ull << 51); }
REG_ONCE("kind of NaN", nan_kinds);
#endif
