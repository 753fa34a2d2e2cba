#include "C12.hpp"
TINSTANCE(generates, Raster<int, 2>);
TINSTANCE(applySizes, Raster<int, 2>);
