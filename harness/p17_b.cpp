#include "p17_common.hpp"
IT(opt::option<int>) IT(opt::option<std::string>) IT(E8) IT(AggIF) IT(sent_int) IT(const std::string&) IT(MoveOnly) IT(std::vector<int>) IT(Empty) IT(UT) IT(Padded) IT(DtorOnly) IT(Poly) IT(std::string_view) IT(opt::option<bool>&)
