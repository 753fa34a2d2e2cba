#include "C18.hpp"
TINSTANCE(cubic, double, 1);
TINSTANCE(cubic, int, 2);
