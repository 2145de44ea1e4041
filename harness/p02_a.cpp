#include "p02_common.hpp"
using ptb = std::pair<TrackedN<1>, bool>; using pbt_ = std::pair<bool, TrackedN<1>>; using ptt = std::pair<TrackedN<1>, TrackedN<2>>;
using tup = std::tuple<int, TrackedN<1>, bool, TrackedN<2>>; using arr = std::array<TrackedN<1>, 3>; using putn = std::pair<UTN<false>, int>;
EX(TrackedN<1>)
EX(MoveOnly)
EX(CopyOnly)
EX(UTN<false>)
EX(ptb)
EX(pbt_)
EX(putn)
