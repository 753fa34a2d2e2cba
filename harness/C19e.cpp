#include "C19.hpp"
TINSTANCE(kernels, float, float, 2, float);
TINSTANCE(kernels, std::complex<double>, std::complex<double>, 2, std::complex<double>);
