#include "C17.hpp"
using R1 = Raster<int, 1>;
TINSTANCE(fixed, R1);
using R2 = Raster<double, 2>;
TINSTANCE(fixed, R2);
using P2 = PtrRaster<unsigned char, 2>;
TINSTANCE(fixed, P2);
TINSTANCE(wide, int, 1);
TINSTANCE(wide, short, 2);
TINSTANCE(wide, float, 3);
TINSTANCE(wide, int, -1);
