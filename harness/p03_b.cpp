#include "p03_common.hpp"
using put = std::pair<UTN<true>, bool>; using arr = std::array<TT, 2>; using tup = std::tuple<bool, TT, int>; using arru = std::array<UTN<true>, 2>;
INJ(put)
INJ(arr)
INJ(tup)
INJ(arru)
using oT = opt::option<TT>; using oU = opt::option<UTN<true>>; using ooU = opt::option<oU>; using oP = opt::option<std::pair<TT, bool>>;
