// The other supported types
#include "C19.hpp"
TINSTANCE(outside, char, char, 1, char);
TINSTANCE(outside, signed char, signed char, 1, signed char);
TINSTANCE(outside, unsigned char, unsigned char, 1, unsigned char);
TINSTANCE(outside, unsigned short, unsigned short, 1, unsigned short);
TINSTANCE(outside, unsigned, unsigned, 1, unsigned);
TINSTANCE(outside, unsigned long, unsigned long, 1, unsigned long);
TINSTANCE(outside, long long, long long, 1, long long);
TINSTANCE(outside, unsigned long long, unsigned long long, 1, unsigned long long);
TINSTANCE(outside, std::complex<float>, std::complex<float>, 1, std::complex<float>);
TINSTANCE(outside, std::complex<long double>, std::complex<long double>, 1, std::complex<long double>);
