#include "p05_common.hpp"
NE(2, std::string) NE(3, std::string) NE(2, std::vector<int>) NE(2, std::unique_ptr<int>) NE(2, std::unique_ptr<int[]>) NE(3, std::unique_ptr<int>) NE(2, std::string_view) NE(2, int Host::*) NE(2, Poly) NE(2, MoveOnly) NE(3, TrackedN<1>) NE(2, UTN<false>) NE(3, UTN<false>) NE(4, UT) NE(2, Padded) NE(2, E8)
NE(2, AggIF) NE(2, Un) NE(2, AggUn) NE(2, AggSB) NE(3, std::pair<int, bool>) NE(2, std::tuple<int, std::string>) NE(2, std::array<float, 2>) NE(2, Empty) NE(2, std::shared_ptr<int>) NE(2, std::complex<float>)
NE(2, opt::option<int>) NE(2, std::pair<opt::option<bool>, int>)
