#include "C19.hpp"

// Histories: the image (values, shape) and the kernel values change between correlations
template <typename TIn, typename TK, Index N>
void histories(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  std::vector<Coord> shapes;
  for (const auto& p : boxPositions(Coord(dim, 1), Coord(dim, dim == 1 ? 4 : 2))) {
    shapes.push_back(p);
  }
  if (dim == 2) {
    shapes.push_back({4, 3});
  }
  const Coord k = dim == 1 ? Coord {3} : Coord {2, 3};
  const Coord origin = dim == 1 ? Coord {1} : Coord {0, 1};
  Coord s = c.of(shapes);
  const int start = c.pick(3); // Dense, null, constant
  c.shard();
  auto filled = [&](const Coord& shape, Index seed) {
    Raster<TIn, N> out(pos<N>(shape));
    for (Index i = 0; i < product(shape); ++i) {
      out[i] = Values19<TIn>::image(i + seed);
    }
    return out;
  };
  Raster<TIn, N> in = filled(s, 0);
  Raster<TK, N> values(pos<N>(k));
  for (Index i = 0; i < product(k); ++i) {
    values[i] = start == 0 ? kernel19<TK>(k, i, 0) : start == 1 ? TK {} : Values19<TK>::kernel(4);
  }
  auto kernel = kernelize(values, pos<N>(origin));
  Raster<TK, N> otherValues = values;
  std::reverse(otherValues.begin(), otherValues.end());
  auto other = kernelize(otherValues, pos<N>(origin));
  const TIn constant = Make<TIn>::value(3);
  const auto ea = extrapolate(in, constant);
  const auto eb = extrapolate<NearestNeighbor>(in);
  const auto ep = extrapolate<Periodic>(in);
  const auto window = shapePositions(k);
  const int depth = c.tier(3, 4);
  for (int i = 0; i < depth; ++i) {
    switch (c.pick(6)) {
      case 0: // Another image
        s = c.of(shapes);
        in = filled(s, i + 1);
        c.note(" image ", s);
        break;
      case 1: // Another pixel
        in[product(s) - 1] = Make<TIn>::value(50 + i);
        c.note(" pixel");
        break;
      case 2: // All kernel values through the view
        for (Index j = 0; j < product(k); ++j) {
          values[j] = Values19<TK>::kernel(j + 3 + i);
          kernel.raster()[j] = values[j];
        }
        c.note(" kernel");
        break;
      case 3: // One kernel value
        values[i % product(k)] = Make<TK>::value(i + 2);
        kernel.raster()[i % product(k)] = values[i % product(k)];
        c.note(" kernel value");
        break;
      case 4: // Null kernel
        values.fill(TK {});
        kernel.raster().fill(TK {});
        c.note(" null kernel");
        break;
      default: // Assignment and move of the kernels
        std::swap(kernel, other);
        std::swap(values, otherValues);
        c.note(" swap");
    }
    auto check = [&](auto& correlator, const auto& weights, const auto& extra, int method) {
      EXPECT_EQ(c, coord<N>(correlator.shape()), k);
      EXPECT_EQ(c, coord<N>(correlator.window().front()), plus(Coord(k.size(), 0), origin, -1));
      const auto out = correlator * extra;
      EXPECT_EQ(c, coord<N>(out.shape()), s);
      Index index = 0;
      for (const auto& p : shapePositions(s)) {
        decltype(TK() * TIn()) sum {};
        for (std::size_t j = 0; j < window.size(); ++j) {
          const Index o = extrapolated(s, plus(plus(p, window[j]), origin, -1), method);
          sum += weights[j] * (o < 0 ? constant : in[o]);
        }
        EXPECT(c, close19(out[index], TK(sum)), "pixel", p, "is", out[index], "instead of", TK(sum));
        ++index;
        c.step();
      }
    };
    check(kernel, values, ea, 0);
    check(kernel, values, eb, 1);
    check(kernel, values, ep, 2);
    check(other, otherValues, eb, 1);
  }
  c.outcome(std::vector<TIn>(in.begin(), in.end()));
}
TINSTANCE(histories, int, int, 1);
TINSTANCE(histories, float, double, 2);
TINSTANCE(histories, short, int, -1);
