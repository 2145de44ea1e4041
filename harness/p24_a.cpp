#include "p24_types.hpp"
namespace {
PAIR(long, int);
PAIR(double, int);
PAIR(Sc, int);
PAIR(std::string, std::string_view);
PAIR(std::unique_ptr<Base>, std::unique_ptr<Derived>);
PAIR(std::shared_ptr<const Base>, std::shared_ptr<Base>);
PAIR(const Base*, Derived*);
PAIR(std::pair<long, double>, std::pair<int, float>);
PAIR(std::tuple<long, double>, std::pair<int, float>);
PAIR(std::function<int(int)>, int (*)(int));
}
