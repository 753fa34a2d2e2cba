#include "C17.hpp"
using R4 = Raster<short, 4>;
TINSTANCE(fixed, R4);
using R5 = Raster<int, 5>;
TINSTANCE(fixed, R5);
using V = Raster<int, -1>;
TINSTANCE(variable, V);
using VA = AlignedRaster<double, -1>;
TINSTANCE(variable, VA);
