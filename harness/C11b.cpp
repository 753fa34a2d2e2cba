#include "C11.hpp"
using R2f = Raster<float, -1>;
TINSTANCE(floating, R2f);
using V3d = Vector<double, 3>;
TINSTANCE(floating, V3d);
TINSTANCE(sizes, R2f);
TINSTANCE(extremes, R2f);
TINSTANCE(extremes, V3d);
using A3d = AlignedRaster<double, 3>;
using Vd = Vector<double, -1>;
TINSTANCE(sizes, A3d);
TINSTANCE(sizes, Vd);
