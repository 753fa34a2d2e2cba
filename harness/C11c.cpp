#include "C11.hpp"
using R2i = Raster<int, 2>;
TINSTANCE(integral, R2i);
using R1c = Raster<unsigned char, 1>;
TINSTANCE(integral, R1c);
using V2l = ValRaster<long, 2>;
TINSTANCE(integral, V2l);

// Arguments of another type: computed as the standard function of both, then stored
SCENARIO(mixedTypes) {
  const std::vector<float> al {0.5f, -2.5f, 0.f, 3.f, 1e3f};
  const std::vector<double> bl {2., .1, -1., 1e-3};
  const auto va = c.word(2, al);
  c.shard();
  const auto vb = c.word(2, bl);
  c.note("a=", va, " b=", vb);
  using R = Raster<float, 1>;
  const R a = Maker<R>::make(va);
  const Raster<double, 2> b({1, 2}, vb);
#define MIXED(fn) \
  { \
    std::vector<float> expected, scalar, integer; \
    for (int i = 0; i < 2; ++i) { \
      expected.push_back(float(std::fn(va[i], vb[i]))); \
      scalar.push_back(float(std::fn(va[i], vb[0]))); \
      integer.push_back(float(std::fn(va[i], 2))); \
    } \
    R x = a; \
    x.fn(b); \
    same(c, x, expected, "a." #fn "(raster of double)"); \
    same(c, Litl::fn(a, b), expected, #fn "(a, raster of double)"); \
    x = a; \
    x.fn(vb[0]); \
    same(c, x, scalar, "a." #fn "(double)"); \
    same(c, Litl::fn(a, 2), integer, #fn "(a, int)"); \
  }
  MIXED(fdim)
  MIXED(fmod)
  MIXED(atan2)
  MIXED(pow)
  MIXED(hypot)
  c.outcome(va);
}

// Non-owning rasters: in-place functions write the shared memory only
SCENARIO(sharedInPlace) {
  const double v = c.of<double>({.5, 2., 9.});
  c.shard();
  std::vector<double> memory {1, v, v + 1, 1};
  PtrRaster<double, 1> a({2}, memory.data() + 1);
  a.sqrt();
  EXPECT_EQ(c, memory, (std::vector<double> {1, std::sqrt(v), std::sqrt(v + 1), 1}));
  a.pow(2.5);
  EXPECT_EQ(c, memory, (std::vector<double> {1, std::pow(std::sqrt(v), 2.5), std::pow(std::sqrt(v + 1), 2.5), 1}));
  c.step(2);
}

// New-instance functions on non-owning rasters
SCENARIO(sharedNewInstance) {
  const int op = c.pick(2);
  c.note("non-owning operand, function ", op);
  std::vector<double> memory {4, 9};
  PtrRaster<double, 1> a({2}, memory.data());
  if (op) {
    auto r = Litl::sqrt(a);
    EXPECT_EQ(c, r, (std::vector<double> {2, 3}));
  } else {
    auto r = Litl::pow(a, 2);
    EXPECT_EQ(c, r, (std::vector<double> {16, 81}));
  }
  EXPECT(c, (memory == std::vector<double> {4, 9}), "the operand was modified by a new-instance function on a non-owning raster");
}
