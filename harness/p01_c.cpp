#include "model.hpp"
using oi = opt::option<int>;
using ob = opt::option<bool>;
using oob = opt::option<ob>;
using os = opt::option<std::string>;
using ot = opt::option<TrackedN<1>>;
using pt = std::pair<TrackedN<1>, bool>;
using osi3 = opt::option<sent_int3>;
using pob = std::pair<opt::option<bool>, int>;
using kv = std::pair<const bool, int>;
using ocb = opt::option<const bool>;
SM(oi)
SM(ob)
SM(oob)
SM(os)
SM(ot)
SM(osi3)
SM(TrackedN<1>)
SM(const TrackedN<1>)
SM(MoveOnly)
SM(CopyOnly)
SM(UTN<false>)
SM(pt)
SM(pob)
SM(kv)
SM(ocb)
SM(DtorOnly)
