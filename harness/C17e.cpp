#include "C17.hpp"

// Extrapolators of a raster whose contents and shape are replaced while they are held
template <typename T, Index N>
void replaced(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  const std::vector<Coord> shapes = dim == 1 ? std::vector<Coord> {{1}, {2}, {3}, {5}} :
      dim == 2 ? std::vector<Coord> {{1, 1}, {2, 2}, {3, 1}, {1, 3}, {3, 2}} : std::vector<Coord> {{1, 1, 1}, {2, 1, 2}, {1, 3, 1}};
  auto filled = [&](const Coord& s, long seed) {
    Raster<T, N> out(pos<N>(s));
    for (Index i = 0; i < product(s); ++i) {
      out[i] = Make<T>::value(seed + i);
    }
    return out;
  };
  Coord s = c.of(shapes);
  c.shard();
  Raster<T, N> raster = filled(s, 1);
  const T constant = Make<T>::value(99);
  const auto a = extrapolate(raster, constant);
  const auto b = extrapolate<NearestNeighbor>(raster);
  const auto p = extrapolate<Periodic>(raster);
  const auto copy = p;
  const int depth = c.tier(2, 3);
  for (int i = 0; i < depth; ++i) {
    const int how = c.pick(4);
    s = c.of(shapes);
    c.note(" then ", s, " by ", how);
    auto other = filled(s, 10 * i + 20);
    if (how == 0) {
      raster = other;
    } else if (how == 1) {
      raster = std::move(other);
    } else if (how == 2) {
      std::swap(raster, other);
    } else { // Out-of-place writing of the same pixels after a change of shape
      raster = Raster<T, N>(pos<N>(s));
      std::copy(other.begin(), other.end(), raster.begin());
    }
    auto check = [&](const auto& extra, int method) {
      EXPECT(c, &extra.raster() == &raster);
      EXPECT_EQ(c, coord<N>(extra.shape()), s);
      EXPECT(c, extra.domain() == raster.domain());
      verify(c, raster, extra, s, method, constant, false);
    };
    check(a, Constant);
    check(b, Nearest);
    check(p, Period);
    check(copy, Period);
  }
  c.outcome(s);
}
TINSTANCE(replaced, int, 1);
TINSTANCE(replaced, short, 2);
TINSTANCE(replaced, double, 3);
TINSTANCE(replaced, int, -1);
