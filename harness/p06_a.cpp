#include "p06_common.hpp"
template<> struct Ty<std::wstring_view> { static const char* name() { return "wstring_view"; } };
#define NM(T) template<> struct Ty<T> { static const char* name() { return #T; } };
SZ(B06(254), bool) SZ(B06(256), float) SZ(B06(256), double) SZ(B06(512), int*) SZ(B06(512), const void*) SZ(B06(512), void (*)()) SZ(B06(512), char**)
SZ(0, int) SZ(0, unsigned char) SZ(0, char) SZ(0, short) SZ(0, u64) SZ(0, Empty) SZ(0, std::shared_ptr<int>) SZ(0, TriNoDef) SZ(0, TrackedN<1>) SZ(0, MoveOnly)
SZ(B06(255), std::string_view) SZ(B06(255), std::wstring_view) SZ(B06(255), std::unique_ptr<int>) SZ(B06(255), std::unique_ptr<int[]>) SZ(B06(255), PlainVec) SZ(B06(255), PlainStr) SZ(B06(255), std::string) SZ(B06(255), std::wstring) SZ(B06(255), std::vector<int>) SZ(B06(255), int Host::*) SZ(B06(255), int (Host::*)(int)) SZ(B06(256), std::reference_wrapper<int>) SZ(B06(255), Poly) SZ(B06(255), PolyD)
SZ(B06(1), ES) SZ(B06(6), ESS) SZ(B06(11), ESE) SZ(B06(255), Padded) SZ(B06(255), Padded16) SZ(B06(256), std::complex<float>) SZ(B06(256), std::complex<double>) SZ(1, sent_int) SZ(3, sent_int3) SZ(3, UT) SZ(2, UTN<false>)
SZ(B06(16), E8) SZ(B06(16), E32) SZ(B06(16), EU)
SZ(B06(254), std::pair<bool, int>) SZ(B06(254), std::pair<int, bool>) SZ(B06(256), std::tuple<int, float, bool>) SZ(B06(512), std::tuple<bool, float, int*>) SZ(0, std::pair<int, int>) SZ(0, std::tuple<int, char>) SZ(B06(254), std::array<bool, 3>) SZ(B06(256), std::array<double, 2>) SZ(0, std::array<int, 3>)
SZ(R06(256), AggIF) SZ(0, Un) SZ(R06(254), AggUn) SZ(R06(255), AggSB) SZ(R06(256), AggNested) SZ(R06(256), std::pair<AggIF, int>) SZ(0, ConstMember)
SZ(B06(253), opt::option<bool>) SZ(B06(254), opt::option<int>) SZ(B06(511), opt::option<int*>) SZ(B06(10), opt::option<ESE>) SZ(0, opt::option<ES>) SZ(0, opt::option<sent_int>) SZ(B06(2), opt::option<sent_int3>) SZ(B06(254), opt::option<std::string>) SZ(R06(255), opt::option<AggIF>)
