#include "p04_common.hpp"
ST(PlainStr) ST(PlainVec) ST(std::vector<bool>) ST(std::string) ST(std::wstring) ST(std::u16string) ST(std::u32string) ST(std::vector<int>) ST(std::vector<std::string>) ST(const std::string)
ST(std::pair<int, bool>) ST(std::pair<bool, int>) ST(std::pair<float, double>) ST(std::pair<std::string, int>) ST(std::tuple<int, float, bool>) ST(std::tuple<int*, double>) ST(std::tuple<int, int, std::string>)
ST(std::array<bool, 3>) ST(std::array<double, 2>) ST(std::array<std::string, 2>)
ST(AggIF) ST(Un) ST(AggUn) ST(AggSB) ST(AggNested) ST(std::pair<AggIF, int>) ST(std::array<AggIF, 2>) ST(std::tuple<AggSB, int>)
ST(std::pair<const bool, int>) ST(std::pair<const int, float>)
