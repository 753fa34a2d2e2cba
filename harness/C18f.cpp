#include "C18.hpp"
TINSTANCE(cubic, float, 2);
TINSTANCE(cubic, double, 3);
