#include "C19.hpp"
TINSTANCE(kernels, int, int, -1, int);
TINSTANCE(outside, int, int, -1, int);
