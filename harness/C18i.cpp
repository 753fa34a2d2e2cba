// The other supported types
#include "C18.hpp"
TINSTANCE(cubic, char, 1);
TINSTANCE(cubic, signed char, 1);
TINSTANCE(cubic, unsigned short, 1);
TINSTANCE(cubic, unsigned, 1);
TINSTANCE(cubic, long, 1);
TINSTANCE(cubic, unsigned long, 1);
TINSTANCE(cubic, long long, 1);
TINSTANCE(cubic, unsigned long long, 1);
TINSTANCE(cubic, long double, 1);
TINSTANCE(cubic, unsigned char, 1);
TINSTANCE(cubic, short, 1);
