#include "p03_common.hpp"
using oT = opt::option<TT>; using oU = opt::option<UTN<true>>; using oP = opt::option<std::pair<TT, bool>>; using pbt_ = std::pair<bool, TT>;
TM(TT)
TM(UTN<true>)
TM(oT)
TM(oU)
TM(oP)
TM(pbt_)
