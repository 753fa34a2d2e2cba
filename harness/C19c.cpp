#include "C19.hpp"
TINSTANCE(kernels, unsigned char, double, 2, double);
TINSTANCE(kernels, long, long, 2, long);
TINSTANCE(kernels, long double, long double, 1, long double);
