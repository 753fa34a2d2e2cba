#include "C10.hpp"

TINSTANCE(operators, Raster<unsigned char, 1>, 0, 1, 2);
TINSTANCE(operators, Raster<std::complex<double>, 2>, 1, 2);
TINSTANCE(operators, ArrRaster<int, 4, 2>, 4);
TINSTANCE(operators, Vector<Index, -1>, 1, 2);
TINSTANCE(programs, ValRaster<int, 1>);
TINSTANCE(sizes, Vector<long, -1>);
TINSTANCE(extremes, Raster<double, 2>);
TINSTANCE(extremes, Vector<long, -1>);
