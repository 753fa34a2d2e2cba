#include "C18.hpp"

// Interpolators of a raster whose contents and shape are replaced while they are held
template <typename I, typename T, Index N, int Method>
void replaced18(mc::Ctx& c) {
  const std::vector<Coord> shapes = N == 1 ? std::vector<Coord> {{1}, {2}, {3}, {5}} : std::vector<Coord> {{1, 1}, {2, 2}, {3, 1}, {1, 3}, {4, 4}};
  auto filled = [&](const Coord& s, long seed) {
    Raster<T, N> out(pos<N>(s));
    for (Index i = 0; i < product(s); ++i) {
      out[i] = Make<T>::value((i * i * 7 + seed * i + 2) % 31);
    }
    return out;
  };
  Coord s = c.of(shapes);
  c.shard();
  const T constant = Make<T>::value(17);
  Raster<T, N> raster = filled(s, 3);
  const auto ea = extrapolate(raster, constant);
  const auto eb = extrapolate<NearestNeighbor>(raster);
  const auto ep = extrapolate<Periodic>(raster);
  const auto none = interpolate<I>(raster);
  const auto a = interpolate<I>(ea);
  const auto b = interpolate<I>(eb);
  const auto p = interpolate<I>(ep);
  const auto copy = b;
  for (int i = 0; i < (N == 1 ? 2 : 1); ++i) {
    const int how = c.pick(3);
    s = c.of(shapes);
    c.note(" then ", s, " by ", how);
    auto other = filled(s, 5 + 2 * i);
    const std::vector<T> values(other.begin(), other.end());
    if (how == 0) {
      raster = other;
    } else if (how == 1) {
      raster = std::move(other);
    } else {
      std::swap(raster, other);
    }
    auto check = [&](const auto& inter, int extra) {
      EXPECT(c, &Litl::rasterize(inter.raster()) == &raster);
      EXPECT_EQ(c, coord<N>(inter.shape()), s);
      EXPECT(c, inter.domain() == raster.domain());
      const Model18<T> m {s, values.data(), extra, constant};
      verify18<T, N>(c, inter, m, Method, false);
    };
    check(none, NoneE);
    check(a, ConstantE);
    check(b, NearestE);
    check(p, PeriodicE);
    check(copy, NearestE);
  }
  c.outcome(s);
}
template <typename T, Index N>
void replaced(mc::Ctx& c) {
  switch (c.pick(3)) {
    case 0:
      return replaced18<NearestNeighbor, T, N, NearestI>(c);
    case 1:
      return replaced18<Linear, T, N, LinearI>(c);
    default:
      return replaced18<Cubic, T, N, CubicI>(c);
  }
}
TINSTANCE(replaced, int, 1);
TINSTANCE(replaced, double, 2);
