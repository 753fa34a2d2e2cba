#include "C17.hpp"
using A3 = AlignedRaster<float, 3>;
TINSTANCE(fixed, A3);
using Z2 = Raster<std::complex<double>, 2>;
TINSTANCE(fixed, Z2);
using R3 = Raster<int, 3>;
TINSTANCE(fixed, R3);
