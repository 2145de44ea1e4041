#include "model.hpp"
using psb = std::pair<std::string, bool>;
using tup = std::tuple<int, std::unique_ptr<int>, bool>;
using arr = std::array<float, 2>;
using arrs = std::array<std::string, 2>;
SM(std::string)
SM(std::vector<int>)
SM(std::unique_ptr<int>)
SM(std::shared_ptr<int>)
SM(std::unique_ptr<int[]>)
SM(PlainStr)
SM(std::vector<bool>)
SM(std::string_view)
SM(std::complex<float>)
SM(psb)
SM(tup)
SM(arr)
SM(arrs)
SM(AggSB)
SM(PolyD)
SM(const std::string)
SM(const AggSB)
SM(ConstMember)
