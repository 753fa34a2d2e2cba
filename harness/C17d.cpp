// The other supported types
#include "C17.hpp"
using O0 = Raster<char, 1>;
TINSTANCE(fixed, O0);
using O1 = Raster<signed char, 1>;
TINSTANCE(fixed, O1);
using O2 = Raster<unsigned short, 1>;
TINSTANCE(fixed, O2);
using O3 = Raster<unsigned, 1>;
TINSTANCE(fixed, O3);
using O4 = Raster<long, 1>;
TINSTANCE(fixed, O4);
using O5 = Raster<unsigned long, 1>;
TINSTANCE(fixed, O5);
using O6 = Raster<long long, 1>;
TINSTANCE(fixed, O6);
using O7 = Raster<unsigned long long, 1>;
TINSTANCE(fixed, O7);
using O8 = Raster<long double, 1>;
TINSTANCE(fixed, O8);
using O9 = Raster<std::complex<float>, 1>;
TINSTANCE(fixed, O9);
using O10 = Raster<std::complex<long double>, 1>;
TINSTANCE(fixed, O10);
using O11 = Raster<unsigned char, 1>;
TINSTANCE(fixed, O11);
using O12 = Raster<short, 1>;
TINSTANCE(fixed, O12);
using O13 = Raster<float, 1>;
TINSTANCE(fixed, O13);
using O14 = Raster<double, 1>;
TINSTANCE(fixed, O14);
using Q0 = AlignedRaster<char, 2>;
TINSTANCE(fixed, Q0);
using Q1 = AlignedRaster<signed char, 2>;
TINSTANCE(fixed, Q1);
using Q2 = AlignedRaster<unsigned short, 2>;
TINSTANCE(fixed, Q2);
using Q3 = AlignedRaster<unsigned, 2>;
TINSTANCE(fixed, Q3);
using Q4 = AlignedRaster<long, 2>;
TINSTANCE(fixed, Q4);
using Q5 = AlignedRaster<unsigned long, 2>;
TINSTANCE(fixed, Q5);
using Q6 = AlignedRaster<long long, 2>;
TINSTANCE(fixed, Q6);
using Q7 = AlignedRaster<unsigned long long, 2>;
TINSTANCE(fixed, Q7);
using Q8 = AlignedRaster<long double, 2>;
TINSTANCE(fixed, Q8);
using Q9 = AlignedRaster<std::complex<float>, 2>;
TINSTANCE(fixed, Q9);
using Q10 = AlignedRaster<std::complex<long double>, 2>;
TINSTANCE(fixed, Q10);
