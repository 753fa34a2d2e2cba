#include "C19.hpp"
TINSTANCE(kernels, int, int, 2, int);
TINSTANCE(outside, int, int, 2, int);
