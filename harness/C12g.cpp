#include "C12.hpp"
// The other supported types
TINSTANCE(fills, Sequence<char>);
TINSTANCE(fills, Sequence<short>);
TINSTANCE(fills, Sequence<unsigned long>);
TINSTANCE(fills, Sequence<long long>);
TINSTANCE(fills, Sequence<unsigned long long>);
TINSTANCE(fills, Sequence<std::complex<long double>>);
TINSTANCE(generates, Sequence<unsigned char>);
TINSTANCE(generates, Sequence<long double>);
TINSTANCE(generates, Sequence<unsigned long long>);
