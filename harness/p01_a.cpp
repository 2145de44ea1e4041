#include "model.hpp"
using pii = std::pair<int, int>;
SM(int)
SM(Un)
SM(unsigned char)
SM(bool)
SM(float)
SM(double)
SM(int*)
SM(Empty)
SM(AggIF)
SM(AggNested)
SM(E8)
SM(E32)
SM(ES)
SM(ESS)
SM(UT)
SM(TriNoDef)
SM(Padded)
SM(sent_int)
SM(pii)
SM(const int)
SM(const bool)
SM(const float)
SM(int Host::*)
SM(int (Host::*)(int))
SM(std::reference_wrapper<int>)
