#include "p24_types.hpp"
namespace {
PAIR(int, long);
PAIR(int, Un);
PAIR(unsigned char, int);
PAIR(std::string_view, std::string);
PAIR(std::shared_ptr<Base>, std::unique_ptr<Derived>);
PAIR(std::unique_ptr<Derived>, std::unique_ptr<Base>);
PAIR(const void*, Derived*);
PAIR(std::pair<std::string, std::string>, std::pair<const char*, std::string_view>);
PAIR(std::variant<int, std::string>, std::string);
}
