// The other supported types
#include "C18.hpp"
TINSTANCE(nearest, char, 1);
TINSTANCE(linear, char, 1);
TINSTANCE(nearest, signed char, 1);
TINSTANCE(linear, signed char, 1);
TINSTANCE(nearest, unsigned short, 1);
TINSTANCE(linear, unsigned short, 1);
TINSTANCE(nearest, unsigned, 1);
TINSTANCE(linear, unsigned, 1);
TINSTANCE(nearest, long, 1);
TINSTANCE(linear, long, 1);
TINSTANCE(nearest, unsigned long, 1);
TINSTANCE(linear, unsigned long, 1);
TINSTANCE(nearest, long long, 1);
TINSTANCE(linear, long long, 1);
TINSTANCE(nearest, unsigned long long, 1);
TINSTANCE(linear, unsigned long long, 1);
TINSTANCE(nearest, long double, 1);
TINSTANCE(linear, long double, 1);
TINSTANCE(nearest, std::complex<float>, 1);
TINSTANCE(nearest, std::complex<long double>, 1);
TINSTANCE(extremes, unsigned short);
TINSTANCE(extremes, char);
