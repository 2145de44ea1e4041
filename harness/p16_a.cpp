#include "p16_common.hpp"
using upi = std::unique_ptr<int>; using pif = std::pair<int, float>; using tdb = std::tuple<bool, double>;
AC(int) AC(bool) AC(double) AC(std::string) AC(int&) AC(std::string&) AC(const int) AC(UT) AC(TrackedN<1>) AC(upi) AC(pif) AC(opt::option<int>) AC(E8) AC(AggIF) AC(sent_int) AC(const std::string&) AC(int*) AC(MoveOnly) AC(std::vector<int>) AC(Empty)
CR(float) CR(double) CR(UT) CR(sent_int) CR(pif) CR(AggIF) CR(ES) CR(ESS) CR(ESE) CR(int*) CR(Padded) CR(E32)
CR(std::string_view) CR(sent_int3) CR(int Host::*)
static_assert(std::is_base_of_v<std::exception, opt::bad_access> && std::is_nothrow_copy_constructible_v<opt::bad_access>);
