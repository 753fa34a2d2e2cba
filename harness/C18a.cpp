#include "C18.hpp"
TINSTANCE(nearest, int, 2);
TINSTANCE(nearest, double, 3);
TINSTANCE(nearest, short, 4);
