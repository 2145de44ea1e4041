#include "p17_common.hpp"
using upi = std::unique_ptr<int>; using pif = std::pair<int, float>;
IT(int) IT(bool) IT(double) IT(std::string) IT(int&) IT(const int&) IT(std::string&) IT(const int) IT(const std::string) IT(TrackedN<1>) IT(upi) IT(pif) IT(int*)
