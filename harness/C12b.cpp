#include "C12.hpp"
TINSTANCE(fills, PtrRaster<signed char, 2>);
TINSTANCE(fills, PtrRaster<unsigned char, 1>);
TINSTANCE(fills, PtrRaster<unsigned int, 1>);
TINSTANCE(fills, PtrRaster<unsigned short, -1>);
TINSTANCE(fills, PtrRaster<long double, 1>);
TINSTANCE(fills, Sequence<std::complex<double>>);
TINSTANCE(fills, PtrRaster<std::complex<float>, 2>);
TINSTANCE(fills, Raster<long, 3>);
TINSTANCE(fillSizes, Sequence<std::complex<double>>);
TINSTANCE(far, PtrRaster<int, 1>);
TINSTANCE(far, PtrRaster<unsigned char, 1>);
TINSTANCE(far, Vector<Index, -1>);
TINSTANCE(far, Sequence<unsigned long>);
TINSTANCE(far, Raster<long, 2>);
TINSTANCE(far, AlignedRaster<unsigned, 1>);
TINSTANCE(far, Sequence<short>);
TINSTANCE(far, Sequence<signed char>);
