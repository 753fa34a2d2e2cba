#include "C12.hpp"
TINSTANCE(generates, PtrRaster<float, 1>);
TINSTANCE(applySizes, PtrRaster<float, 1>);
