#include "C10.hpp"

TINSTANCE(operators, Raster<short, 3>, 1, 2);
TINSTANCE(operators, ValRaster<float, 2>, 0, 1, 2);
TINSTANCE(operators, Vector<Index, 2>, 2);
TINSTANCE(programs, Raster<int, 2>);
TINSTANCE(programs, Vector<Index, 2>);
TINSTANCE(extremes, Raster<short, 3>);
TINSTANCE(extremes, ValRaster<float, 2>);
