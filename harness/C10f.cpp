#include "C10.hpp"
// The other supported types
template <typename T>
using R10 = Raster<T, 2>;
TINSTANCE(operators, R10<long long>, 1, 2);
TINSTANCE(operators, R10<unsigned long long>, 1, 2);
TINSTANCE(operators, R10<long double>, 1, 2);
TINSTANCE(operators, R10<std::complex<float>>, 1, 2);
TINSTANCE(operators, R10<std::complex<long double>>, 1, 2);
TINSTANCE(extremes, R10<long double>);
TINSTANCE(extremes, R10<unsigned long long>);
TINSTANCE(extremes, R10<long long>);
