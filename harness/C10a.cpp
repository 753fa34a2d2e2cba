#include "C10.hpp"

TINSTANCE(operators, Raster<int, 2>, 0, 1, 2, 3);
TINSTANCE(operators, Raster<double, 2>, 0, 1, 2, 3);
TINSTANCE(operators, AlignedRaster<double, -1>, 1, 2);
TINSTANCE(operators, Vector<double, 2>, 2);
TINSTANCE(programs, AlignedRaster<long, 2>);
TINSTANCE(sizes, Raster<double, 2>);
TINSTANCE(sizes, AlignedRaster<int, -1>);
TINSTANCE(extremes, Raster<int, 2>);
TINSTANCE(extremes, AlignedRaster<long, 2>);
