#include "p05_common.hpp"
NE(2, bool) NE(3, bool) NE(6, bool) NE(2, int) NE(4, int) NE(2, sent_int) NE(3, sent_int) NE(3, sent_int3) NE(5, sent_int3) NE(2, ES) NE(3, ES) NE(7, ESS)
NE(2, double) NE(2, float) NE(3, int*) NE(2, const bool) NE(2, const int) NE(2, std::reference_wrapper<int>)
