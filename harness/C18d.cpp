#include "C18.hpp"
TINSTANCE(linear, float, 3);
using Z = std::complex<double>;
TINSTANCE(linear, Z, 2);
TINSTANCE(linear, double, 4);
TINSTANCE(linear, double, 5);
