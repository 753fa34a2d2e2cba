#include "C12.hpp"
TINSTANCE(fills, Raster<double, 2>);
TINSTANCE(fills, PtrRaster<float, 1>);
TINSTANCE(fills, Vector<Index, -1>);
TINSTANCE(fills, Sequence<int>);
TINSTANCE(fills, AlignedRaster<int, -1>);
TINSTANCE(fillSizes, Raster<double, 2>);
TINSTANCE(fillSizes, PtrRaster<long, 1>);
TINSTANCE(fillSizes, AlignedRaster<double, -1>);
TINSTANCE(fillSizes, Vector<double, -1>);
