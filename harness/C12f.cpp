#include "C12.hpp"
TINSTANCE(generates, Sequence<double>);
TINSTANCE(applySizes, Sequence<double>);
