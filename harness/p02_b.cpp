#include "p02_common.hpp"
using ptt = std::pair<TrackedN<1>, TrackedN<2>>; using tup = std::tuple<int, TrackedN<1>, bool, TrackedN<2>>; using arr = std::array<TrackedN<1>, 3>;
EX(ptt)
EX(arr)
EX(AggTB)
EX(AggBT)
EX(tup)
// histories, checked against the registry after every operation
using oT = opt::option<TrackedN<1>>; using oooT = opt::option<opt::option<oT>>; using oU = opt::option<UTN<false>>; using ooU = opt::option<oU>;
SM(TrackedN<1>)
SM(UTN<false>)
SM(oT)
SM(oooT)
SM(oU)
SM(ooU)
SM(AggTB)
