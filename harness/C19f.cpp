#include "C19.hpp"
TINSTANCE(kernels, short, float, 3, float);
TINSTANCE(kernels, int, int, 4, int);
