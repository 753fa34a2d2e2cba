#include "C19.hpp"
TINSTANCE(kernels, int, int, 1, int);
TINSTANCE(kernels, unsigned char, double, 1, double);
TINSTANCE(kernels, double, int, 1, double);
TINSTANCE(kernels, float, short, 1, double);
TINSTANCE(large, int, int, 1, int);
TINSTANCE(large, double, int, 1, double);
TINSTANCE(outside, int, int, 1, int);
TINSTANCE(outside, long double, long double, 1, long double);
TINSTANCE(kernels, long, long, 1, long);
