#include "p24_types.hpp"
namespace {
PAIR(double, float);
PAIR(int, Sc);
PAIR(std::string, const char*);
PAIR(std::string_view, const char*);
PAIR(std::shared_ptr<Base>, std::shared_ptr<Derived>);
PAIR(Base, Derived);
PAIR(Derived*, Base*);
PAIR(std::tuple<long, std::string>, std::tuple<int, const char*>);
PAIR(std::variant<int, std::string>, int);
}
