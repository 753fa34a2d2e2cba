#include "C10.hpp"
// The other supported types
template <typename T>
using A10 = AlignedRaster<T, 1>;
TINSTANCE(operators, A10<char>, 1, 2);
TINSTANCE(operators, A10<signed char>, 1, 2);
TINSTANCE(operators, A10<unsigned short>, 1, 2);
TINSTANCE(operators, A10<unsigned int>, 1, 2);
TINSTANCE(operators, A10<unsigned long>, 1, 2);
TINSTANCE(extremes, A10<signed char>);
TINSTANCE(extremes, A10<unsigned short>);
TINSTANCE(extremes, A10<unsigned int>);
