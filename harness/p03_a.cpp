#include "p03_common.hpp"
using ptb = std::pair<TT, bool>; using pbt_ = std::pair<bool, TT>; using ptt = std::pair<TT, TrackedN<2, true>>; using put = std::pair<UTN<true>, bool>;
INJ(TT)
INJ(UTN<true>)
INJ(ptb)
INJ(pbt_)
INJ(ptt)
