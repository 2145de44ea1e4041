#include "p04_common.hpp"
ST(bool) ST(float) ST(double) ST(const float) ST(const double) ST(const bool) ST(int*) ST(const char*) ST(void*) ST(int**) ST(void (*)()) ST(int (*)(int, char))
ST(int Host::*) ST(u64 Host::*) ST(int (Host::*)(int)) ST(int (Host::*)(int) const)
ST(std::unique_ptr<int>) ST(std::unique_ptr<char[]>) ST(std::string_view) ST(std::wstring_view) ST(std::reference_wrapper<int>)
ST(E8) ST(E32) ST(EU) ST(ES) ST(ESS) ST(ESE) ST(Padded) ST(Padded16) ST(sent_int) ST(sent_int3) ST(UT) ST(UTN<false>)
ST(Poly) ST(PolyD) ST(std::complex<float>) ST(std::complex<double>)
