#include "C11.hpp"
// The other supported types
template <typename T>
using R11 = AlignedRaster<T, 1>;
TINSTANCE(integral, R11<char>);
TINSTANCE(integral, R11<signed char>);
TINSTANCE(integral, R11<short>);
TINSTANCE(integral, R11<unsigned short>);
TINSTANCE(integral, R11<long long>);
