#include "p09_common.hpp"
CB(int)
CB(bool)
CB(double)
CB(const int)
CB(std::string)
CB(int&)
CB(const std::string&)
