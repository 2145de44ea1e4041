#include "p09_common.hpp"
using psi = std::pair<std::string, bool>;
CB(TrackedN<1>)
CB(MoveOnly)
CB(std::unique_ptr<int>)
CB(opt::option<bool>)
CB(psi)
CB(TrackedN<2>&)
CB(E8)
