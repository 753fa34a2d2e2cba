#include "C12.hpp"
TINSTANCE(generates, Vector<Index, -1>);
