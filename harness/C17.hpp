#ifndef C17_HPP
#define C17_HPP
// C17: extrapolators
#include "LitlTransforms/Interpolation.h"
#include "util.hpp"
using namespace Litl;

enum Method { Constant, Nearest, Period };

// Expected storage offset, or -1 for the constant
inline Index model17(const Coord& s, Coord p, int method) {
  if (inside(s, p)) {
    return offsetOf(s, p);
  }
  if (method == Constant) {
    return -1;
  }
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (method == Nearest) {
      p[i] = p[i] < 0 ? 0 : p[i] >= s[i] ? s[i] - 1 : p[i];
    } else {
      p[i] = ((p[i] % s[i]) + s[i]) % s[i];
    }
  }
  return offsetOf(s, p);
}

template <typename R, typename E>
void verify(mc::Ctx& c, const R& raster, const E& extra, const Coord& s, int method, typename R::Value constant, bool far) {
  using T = typename R::Value;
  Coord f, b;
  for (auto l : s) {
    f.push_back(s.size() > 4 ? -l - 1 : -2 * l - 2);
    b.push_back(s.size() > 4 ? 2 * l : 3 * l + 2);
  }
  auto check = [&](const Coord& p) {
    const T& got = extra[pos<R::Dimension>(p)];
    const Index o = model17(s, p, method);
    if (o < 0) {
      EXPECT(c, got == constant, "at", p, "value is", got, "instead of the constant", constant);
    } else {
      EXPECT(c, &got == raster.data() + o, "at", p, "element is", &got - raster.data(), "instead of", o);
    }
    c.step();
  };
  for (const auto& p : boxPositions(f, b)) {
    check(p);
  }
  if (far) { // Far positions along every subset of the axes
    const std::vector<Index> offsets {-1000000007, -4611686018427387904 + 1, 1000000007, 4611686018427387904 - 1, 0};
    Coord k(s.size(), 0), last(s.size(), offsets.size() - 1);
    for (const auto& w : boxPositions(k, last)) {
      Coord p = w;
      for (auto& e : p) {
        e = offsets[e];
      }
      check(p);
    }
  }
}

// Long axes
template <typename T, Index N>
void wide(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickWideShape(c, dim);
  const int method = c.pick(3);
  c.shard();
  c.note("shape ", s, " method ", method);
  Raster<T, N> raster(pos<N>(s));
  const T constant = Make<T>::value(99);
  std::vector<std::vector<Index>> axes;
  Coord last;
  for (auto l : s) {
    axes.emplace_back();
    for (Index e : {-70002L, -65537L, -65536L, -257L, -3L, -2L, -1L, 0L, 1L, 2L, 3L, 127L, 128L, 255L, 256L, 299L, 300L, 32767L, 32768L, 65535L, 65536L, 70000L, 70001L, 140001L, 140002L, -l - 1, -l, 2 * l - 1, 2 * l}) {
      if (l > 2 || (e >= -3 && e <= 3)) {
        axes.back().push_back(e);
      }
    }
    last.push_back(Index(axes.back().size()) - 1);
  }
  auto check = [&](const auto& extra) {
    for (const auto& k : boxPositions(Coord(s.size(), 0), last)) {
      Coord p;
      for (std::size_t i = 0; i < s.size(); ++i) {
        p.push_back(axes[i][k[i]]);
      }
      const T& got = extra[pos<N>(p)];
      const Index o = model17(s, p, method);
      if (o < 0) {
        EXPECT(c, got == constant, "at", p, "value is", got, "instead of the constant", constant);
      } else {
        EXPECT(c, &got == raster.data() + o, "at", p, "element is", &got - raster.data(), "instead of", o);
      }
      c.step();
    }
  };
  switch (method) {
    case Constant:
      check(extrapolate(raster, constant));
      break;
    case Nearest:
      check(extrapolate<NearestNeighbor>(raster));
      break;
    default:
      check(extrapolate<Periodic>(raster));
  }
  c.outcome(s);
}

template <typename R>
void reads(mc::Ctx& c, Index dim, long max) {
  using T = typename R::Value;
  const Coord s = pickShape(c, dim, 1, max);
  const int method = c.pick(3);
  c.shard();
  const T constant = Make<T>::value(99);
  c.note("shape ", s, " method ", method);
  std::vector<T> data(product(s));
  for (std::size_t i = 0; i < data.size(); ++i) {
    data[i] = Make<T>::value(long(i) + 1);
  }
  R raster(pos<R::Dimension>(s), data.data());
  std::copy(data.begin(), data.end(), raster.begin());
  auto values = [&]() {
    return std::vector<T>(raster.begin(), raster.end());
  };
  const auto before = values();
  const int change = c.pick(int(std::min<Index>(product(s), 4)) + 1);
  auto both = [&](const auto& extra) {
    EXPECT(c, &extra.raster() == &raster && &rasterize(extra) == &raster);
    EXPECT_EQ(c, coord<R::Dimension>(extra.shape()), s);
    EXPECT(c, extra.domain() == raster.domain());
    verify(c, raster, extra, s, method, constant, true);
    EXPECT_EQ(c, values(), before);
    if (change < std::min<Index>(product(s), 4)) { // Later changes are seen
      const Index i = change == 3 ? product(s) - 1 : change;
      const T v = Make<T>::value(-5);
      raster[i] = v;
      Coord p(s.size()); // Position of the change
      Index o = i;
      for (std::size_t k = 0; k < s.size(); ++k) {
        p[k] = o % s[k];
        o /= s[k];
      }
      EXPECT(c, extra[pos<R::Dimension>(p)] == v, "change at", p, "is not seen");
      verify(c, raster, extra, s, method, constant, false);
    }
    // Copy of the extrapolator
    auto copy = extra;
    EXPECT(c, &copy.raster() == &raster);
    verify(c, raster, copy, s, method, constant, false);
  };
  switch (method) {
    case Constant:
      if (change == 0) {
        both(extrapolate<OutOfBoundsConstant<T>>(raster, constant));
        const auto byDefault = extrapolate<OutOfBoundsConstant<T>>(raster);
        verify(c, raster, byDefault, s, method, T {}, false);
      } else {
        both(extrapolate(raster, constant));
      }
      break;
    case Nearest:
      if (change == 0) {
        both(extrapolate<NearestNeighbor>(raster));
      } else {
        both(extrapolate(raster));
      }
      break;
    default:
      both(extrapolate<Periodic>(raster));
  }
  c.outcome(values());
}

template <typename R>
void fixed(mc::Ctx& c) {
  const Index n = R::Dimension;
  reads<R>(c, n, n == 1 ? c.tier(6, 9) : n == 2 ? c.tier(4, 6) : n == 3 ? c.tier(2, 4) : n == 4 ? c.tier(1, 2) : 2);
}
template <typename R>
void variable(mc::Ctx& c) {
  const Index n = c.range(1, 3);
  reads<R>(c, n, n == 1 ? c.tier(6, 9) : n == 2 ? c.tier(4, 6) : c.tier(2, 3));
}
#endif
