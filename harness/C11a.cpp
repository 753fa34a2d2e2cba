#include "C11.hpp"
using R2d = Raster<double, 2>;
TINSTANCE(floating, R2d);
using A2d = AlignedRaster<double, 2>;
TINSTANCE(floating, A2d);
TINSTANCE(sizes, R2d);
TINSTANCE(extremes, R2d);

SCENARIO(pis) {
  c.shard();
  EXPECT(c, std::abs(Litl::pi<double>() - 3.14159265358979323846) < 1e-15, "pi is", Litl::pi<double>());
  EXPECT(c, std::abs(Litl::pi<float>() - 3.14159265358979323846) < 1e-6, "pi is", Litl::pi<float>());
  EXPECT(c, std::abs(Litl::pi<long double>() - 3.14159265358979323846264338328L) < 1e-18L, "pi is", Litl::pi<long double>());
  c.outcome(Litl::pi<double>());
}
