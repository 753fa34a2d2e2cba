#include "C18.hpp"
TINSTANCE(nearest, float, 1);
TINSTANCE(nearest, unsigned char, -1);
TINSTANCE(extremes, int);
TINSTANCE(extremes, unsigned);
TINSTANCE(extremes, unsigned char);
TINSTANCE(extremes, short);
TINSTANCE(extremes, signed char);
