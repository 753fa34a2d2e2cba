#include "C11.hpp"
using R2z = Raster<std::complex<double>, 2>;
TINSTANCE(complexes, R2z);
using A2z = AlignedRaster<std::complex<float>, -1>;
TINSTANCE(complexes, A2z);
