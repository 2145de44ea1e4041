#include "p10_common.hpp"
LO(int, int)
LO(bool, bool)
LO(double, double)
LO(std::string, std::string)
LO(TrackedN<1>, TrackedN<1>)
LO(MoveOnly, MoveOnly)
using oob = opt::option<bool>;
LO(oob, oob)
LO(UT, UT)
