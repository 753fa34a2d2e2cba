#include "C10.hpp"

// Non-owning rasters: in-place operators write the shared memory, there and nowhere else
SCENARIO(sharedInPlace) {
  const std::size_t n = c.range(0, 3);
  const auto va = c.word<int>(n, {7, -3, 2});
  const auto vb = c.word<int>(n, {1, 5});
  c.shard();
  c.note("a=", va, " b=", vb);
  std::vector<int> memory(n + 2, 99), other(vb);
  for (int op = 0; op < 12; ++op) {
    std::copy(va.begin(), va.end(), memory.begin() + 1);
    PtrRaster<int, 1> a({Index(n)}, memory.data() + 1);
    PtrRaster<int, 1> b({Index(n)}, other.data());
    Vals<int> expected;
    for (std::size_t i = 0; i < n; ++i) {
      const int x = va[i], y = vb[i];
      expected.push_back(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : op == 4 ? x % y : op == 5 ? x + 3 : op == 6 ? x - 3 :
          op == 7 ? x * 3 : op == 8 ? x / 3 : op == 9 ? x % 3 : op == 10 ? x + 1 : x - 1);
    }
    switch (op) {
      case 0: a += b; break;
      case 1: a -= b; break;
      case 2: a *= b; break;
      case 3: a /= b; break;
      case 4: a %= b; break;
      case 5: a += 3; break;
      case 6: a -= 3; break;
      case 7: a *= 3; break;
      case 8: a /= 3; break;
      case 9: a %= 3; break;
      case 10: ++a; break;
      case 11: --a; break;
    }
    same(c, a, expected, "in-place operator");
    EXPECT(c, std::equal(expected.begin(), expected.end(), memory.begin() + 1));
    EXPECT(c, memory.front() == 99 && memory.back() == 99);
    EXPECT_EQ(c, other, vb);
  }
  c.outcome(n);
}

// New-instance operators on non-owning rasters
SCENARIO(sharedNewInstance) {
  const int op = c.pick(6);
  c.note("non-owning operand, operator ", op);
  std::vector<int> memory {1, 2, 3}, other {4, 5, 6};
  PtrRaster<int, 1> a({3}, memory.data()), b({3}, other.data());
  switch (op) {
    case 0: { auto r = a + b; EXPECT_EQ(c, r, (Vals<int> {5, 7, 9})); break; }
    case 1: { auto r = a - 1; EXPECT_EQ(c, r, (Vals<int> {0, 1, 2})); break; }
    case 2: { auto r = 2 * a; EXPECT_EQ(c, r, (Vals<int> {2, 4, 6})); break; }
    case 3: { auto r = 1 - a; EXPECT_EQ(c, r, (Vals<int> {0, -1, -2})); break; }
    case 4: { auto r = -a; EXPECT_EQ(c, r, (Vals<int> {-1, -2, -3})); break; }
    case 5: { auto r = +a; EXPECT_EQ(c, r, (Vals<int> {1, 2, 3})); break; }
  }
  EXPECT_EQ(c, other, (Vals<int> {4, 5, 6}));
  EXPECT(c, (memory == Vals<int> {1, 2, 3}), "the operand was modified by a new-instance operator on a non-owning raster");
}

TINSTANCE(operators, Raster<long, -1>, 0, 1, 2);
TINSTANCE(operators, AlignedRaster<int, 2>, 0, 1, 2);
TINSTANCE(operators, Vector<Index, 3>, 3);
TINSTANCE(programs, Raster<double, -1>);
TINSTANCE(extremes, Raster<long, -1>);
TINSTANCE(extremes, Raster<unsigned char, 1>);
TINSTANCE(extremes, Raster<unsigned long, 2>);
TINSTANCE(extremes, Raster<std::complex<float>, 2>);
TINSTANCE(extremes, Raster<std::complex<double>, 1>);
