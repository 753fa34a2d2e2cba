#include "C18.hpp"

TINSTANCE(cubic, double, 4);
TINSTANCE(precise, int, 1);
TINSTANCE(precise, double, 2);
TINSTANCE(precise, short, 3);
TINSTANCE(wide, int, 1);
TINSTANCE(wide, double, 2);
TINSTANCE(wide, short, 3);
