#include "p13_common.hpp"
using upi = std::unique_ptr<int>;
#define Z(...) REG("zip " #__VA_ARGS__, (&zips<__VA_ARGS__>));
Z(int, float, double) Z(bool, std::string, upi) Z(TrackedN<1>, TrackedN<2>, TrackedN<3>) Z(int&, std::string, const int) Z(upi, upi, upi) Z(bool, bool, bool) Z(opt::option<bool>, sent_int, E8)
