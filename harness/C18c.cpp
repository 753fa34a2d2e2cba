#include "C18.hpp"
TINSTANCE(linear, double, 1);
TINSTANCE(linear, int, 2);
