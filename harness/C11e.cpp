#include "C11.hpp"
// The other supported types
using R1l = Raster<long double, 1>;
TINSTANCE(floating, R1l);
TINSTANCE(extremes, R1l);
using R2zl = Raster<std::complex<long double>, 2>;
TINSTANCE(complexes, R2zl);
