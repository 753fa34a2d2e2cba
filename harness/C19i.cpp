// The other supported types
#include "C19.hpp"
TINSTANCE(kernels, char, char, 1, char);
TINSTANCE(kernels, signed char, signed char, 1, signed char);
TINSTANCE(kernels, unsigned char, unsigned char, 1, unsigned char);
TINSTANCE(kernels, short, short, 1, short);
TINSTANCE(kernels, unsigned short, unsigned short, 1, unsigned short);
TINSTANCE(kernels, unsigned, unsigned, 1, unsigned);
TINSTANCE(kernels, unsigned long, unsigned long, 1, unsigned long);
TINSTANCE(kernels, long long, long long, 1, long long);
TINSTANCE(kernels, unsigned long long, unsigned long long, 1, unsigned long long);
TINSTANCE(kernels, float, float, 1, float);
TINSTANCE(kernels, double, double, 1, double);
TINSTANCE(kernels, std::complex<float>, std::complex<float>, 1, std::complex<float>);
TINSTANCE(kernels, std::complex<double>, std::complex<double>, 1, std::complex<double>);
TINSTANCE(kernels, std::complex<long double>, std::complex<long double>, 1, std::complex<long double>);
