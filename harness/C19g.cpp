#include "C19.hpp"
TINSTANCE(kernels, double, int, 2, double);
TINSTANCE(large, int, int, 2, int);
TINSTANCE(large, unsigned char, double, 2, double);
TINSTANCE(large, short, int, 3, long);
TINSTANCE(large, long, long, 2, long);
TINSTANCE(wide, int, int, 1, int);
TINSTANCE(wide, int, int, 2, int);
TINSTANCE(wide, int, int, 3, int);
