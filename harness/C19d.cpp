#include "C19.hpp"
TINSTANCE(kernels, int, int, 3, long);
TINSTANCE(outside, short, int, 3, long);
