#include "p10_common.hpp"
using psb = std::pair<std::string, bool>;
using upi = std::unique_ptr<int>;
LO(upi, upi)
LO(int&, int&)
LO(std::string&, std::string&)
LO(int, std::string)
LO(std::string, bool)
LO(upi, int&)
LO(int&, psb)
LO(psb, psb)
LO(const int, const int)
LO(E8, TrackedN<1>)
LO(TrackedN<1>, TrackedN<2>)
LO(sent_int, sent_int)
