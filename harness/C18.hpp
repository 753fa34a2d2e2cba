#ifndef C18_HPP
#define C18_HPP
// C18: interpolators
#include "LitlTransforms/Interpolation.h"
#include "util.hpp"
#include <cmath>
using namespace Litl;

enum InterMethod { NearestI, LinearI, CubicI };
enum ExtraMethod { NoneE, ConstantE, NearestE, PeriodicE };

template <typename T>
struct Model18 {
  using Wide = std::conditional_t<std::is_arithmetic<T>::value, long double, std::complex<long double>>;
  Coord shape;
  const T* data;
  int extra;
  T constant;

  static long double wide(long double v) {
    return v;
  }
  template <typename S>
  static std::complex<long double> wide(const std::complex<S>& v) {
    return {v.real(), v.imag()};
  }
  Wide pixel(const Coord& p) const {
    Index offset = 0, stride = 1;
    for (std::size_t i = 0; i < p.size(); ++i) {
      Index q = p[i];
      if (q < 0 || q >= shape[i]) {
        if (extra == ConstantE) {
          return wide(constant);
        }
        q = extra == NearestE ? (q < 0 ? 0 : shape[i] - 1) : ((q % shape[i]) + shape[i]) % shape[i];
      }
      offset += q * stride;
      stride *= shape[i];
    }
    return wide(data[offset]);
  }
  // Tensor product along axes axis-1..0
  Wide tensor(int method, const std::vector<double>& at, std::size_t axis, Coord& p) const {
    if (axis == 0) {
      return pixel(p);
    }
    const Index f = Index(std::floor(at[axis - 1]));
    const long double d = (long double)at[axis - 1] - f;
    Wide out = 0;
    auto add = [&](Index i, long double w) {
      p[axis - 1] = i;
      out += w * tensor(method, at, axis - 1, p);
    };
    if (method == LinearI) {
      add(f, 1 - d);
      add(f + 1, d);
    } else {
      add(f - 1, .5L * (-d + 2 * d * d - d * d * d));
      add(f, 1 + .5L * (-5 * d * d + 3 * d * d * d));
      add(f + 1, .5L * (d + 4 * d * d - 3 * d * d * d));
      add(f + 2, .5L * (-d * d + d * d * d));
    }
    return out;
  }
  // Pixels at the closest integer positions
  std::vector<Wide> closest(const std::vector<double>& at) const {
    Coord lo, hi;
    for (long double e : at) { // Exact in long double
      lo.push_back(Index(std::ceil(e - .5L)));
      hi.push_back(Index(std::floor(e + .5L)));
    }
    std::vector<Wide> out;
    for (const auto& p : boxPositions(lo, hi)) {
      out.push_back(pixel(p));
    }
    return out;
  }
};

// Fractions along an axis, in support of the method if there is no extrapolation
inline std::vector<double> axisPositions(Index length, int method, int extra, bool dense, std::size_t dim) {
  std::vector<double> out;
  const bool few = dim > 3;
  constexpr double Tiny = 1. / (1 << 20);
  const std::vector<double> fractions = dense ? std::vector<double> {0, Tiny / 1024, Tiny, Tiny * 1024, .1, .25, .5, .7, .9, 1 - Tiny * 1024, 1 - Tiny, 1 - Tiny / 1024} :
                                                    few ? (dim > 4 ? std::vector<double> {.7} : std::vector<double> {0, .7}) : std::vector<double> {0, Tiny * 256, .25, .7};
  const Index margin = dense ? 3 : 1;
  for (Index f = -length - margin + 1; f <= 2 * length + margin - 1; ++f) {
    if ((!dense && f > 1 && f < length - 1) || (few && (f < -1 || f > length))) {
      continue;
    }
    for (auto d : fractions) {
      const double e = double(f) + d;
      if (extra == NoneE) {
        const Index lo = method == NearestI ? Index(std::ceil(e - .5)) : method == LinearI ? f : f - 1;
        const Index hi = method == NearestI ? Index(std::floor(e + .5)) : method == LinearI ? f + 1 : f + 2;
        if (lo < 0 || hi >= length) {
          continue;
        }
      }
      out.push_back(e);
    }
  }
  return out;
}

template <typename T, Index N, typename TInter>
void verify18(mc::Ctx& c, const TInter& inter, const Model18<T>& m, int method, bool dense) {
  using Floating = typename TypeTraits<T>::Floating;
  const std::size_t dim = m.shape.size();
  std::vector<std::vector<double>> axes;
  Coord f(dim, 0), b;
  for (auto l : m.shape) {
    axes.push_back(axisPositions(l, method, m.extra, dense, dim));
    b.push_back(Index(axes.back().size()) - 1);
  }
  const double eps = std::is_same<Floating, float>::value ? 2e-6 : 1e-13;
  long double scale = std::abs(Model18<T>::wide(m.constant));
  for (Index i = 0; i < product(m.shape); ++i) {
    scale = std::max<long double>(scale, std::abs(Model18<T>::wide(m.data[i])));
  }
  const long double tol = eps * (scale + 1) * 40;
  for (const auto& k : boxPositions(f, b)) {
    std::vector<double> at;
    bool integral = true;
    Coord p;
    for (std::size_t i = 0; i < dim; ++i) {
      at.push_back(axes[i][k[i]]);
      p.push_back(Index(std::floor(at[i])));
      integral &= at[i] == double(p[i]);
    }
    Vector<double, N> v(static_cast<Index>(dim));
    std::copy(at.begin(), at.end(), v.begin());
    const Floating got = inter(v);
    const auto wide = Model18<T>::wide(got);
    if (integral) {
      EXPECT(c, std::abs(wide - m.pixel(p)) <= (method == NearestI ? 0 : tol), "at integer position", p, "value is", got, "instead of", m.pixel(p));
      EXPECT(c, Model18<T>::wide(inter[pos<N>(p)]) == m.pixel(p), "operator[] at", p);
    }
    if (method == NearestI) {
      bool ok = false;
      const auto candidates = m.closest(at);
      for (auto e : candidates) {
        ok = ok || e == wide;
      }
      EXPECT(c, ok, "at", at, "value is", got, "instead of one of", candidates);
    } else {
      Coord q(dim);
      const auto expected = m.tensor(method, at, dim, q);
      EXPECT(c, std::abs(wide - expected) <= tol, "at", at, "value is", got, "instead of", expected);
    }
    c.step();
  }
}

template <typename I, typename T, Index N, int Method>
void interpolations(mc::Ctx& c, Index dim, long max) {
  Coord s;
  for (Index i = 0; i < dim; ++i) {
    s.push_back(dim < 4 || max < 4 ? c.range(1, max) : c.of<Index>({2, max}));
  }
  const int extra = c.pick(4);
  c.shard();
  const Index n = product(s);
  const int image = c.pick(int(std::min<Index>(n, dim < 4 ? 6 : 2)) + 1); // Impulse at any pixel, or a dense image
  c.note("shape ", s, " method ", Method, " extrapolation ", extra, " image ", image);
  Raster<T, N> raster(pos<N>(s));
  for (Index i = 0; i < n; ++i) {
    raster[i] = image == 0 ? Make<T>::value((i * i * 7 + 3 * i + 2) % 31) : Make<T>::value(0);
  }
  if (image > 0) {
    raster[n > 6 ? (image - 1) * (n - 1) / (dim < 4 ? 5 : 1) : image - 1] = Make<T>::value(64);
  }
  const std::vector<T> before(raster.begin(), raster.end());
  Model18<T> m {s, before.data(), extra, Make<T>::value(17)};
  auto run = [&](const auto& r) {
    const auto inter = interpolate<I>(r);
    EXPECT(c, &inter.raster() == &raster);
    EXPECT_EQ(c, coord<N>(inter.shape()), s);
    EXPECT(c, inter.domain() == raster.domain());
    verify18<T, N>(c, inter, m, Method, dim < c.tier(2, 3));
    const std::vector<T> after(raster.begin(), raster.end());
    EXPECT_EQ(c, after, before);
    // Later changes are seen
    raster[0] = Make<T>::value(5);
    const std::vector<T> changed(raster.begin(), raster.end());
    const Model18<T> m2 {s, changed.data(), extra, Make<T>::value(17)};
    if (image < 2) {
      verify18<T, N>(c, inter, m2, Method, false);
    }
  };
  switch (extra) {
    case NoneE:
      run(raster);
      break;
    case ConstantE:
      run(extrapolate(raster, Make<T>::value(17)));
      break;
    case NearestE:
      run(extrapolate<NearestNeighbor>(raster));
      break;
    default:
      run(extrapolate<Periodic>(raster));
  }
  c.outcome(before);
}

// Extreme integers: no difference overflows or wraps
template <typename I, typename T, int Method>
void extremes18(mc::Ctx& c) {
  using L = std::numeric_limits<T>;
  const Index n = c.range(1, c.tier(4, 5));
  const int extra = c.pick(4);
  c.shard();
  Raster<T, 1> raster({n});
  for (auto& e : raster) {
    e = c.of(std::vector<T> {L::max(), L::min(), T(1), T(L::max() - 1)});
  }
  c.note("method ", Method, " extrapolation ", extra, " values ", raster);
  const std::vector<T> before(raster.begin(), raster.end());
  const T constant = L::max();
  Model18<T> m {{n}, before.data(), extra, constant};
  auto run = [&](const auto& r) {
    verify18<T, 1>(c, interpolate<I>(r), m, Method, false);
  };
  switch (extra) {
    case NoneE:
      run(raster);
      break;
    case ConstantE:
      run(extrapolate(raster, constant));
      break;
    case NearestE:
      run(extrapolate<NearestNeighbor>(raster));
      break;
    default:
      run(extrapolate<Periodic>(raster));
  }
  c.outcome(before);
}
// Positions one or a few units in the last place away from the middle of two pixels, or from a pixel, or very far
template <typename I, typename T, Index N, int Method>
void precise18(mc::Ctx& c) {
  const int extra = c.range(1, 3);
  const std::vector<double> bases {-3, -2, -1, 0, 1, 2, 3, 1048575, -1048577, 4503599627370495., 4503599627370497., 9007199254740991., -4503599627370497.};
  const double base = c.of(bases);
  const double fraction = c.of(std::vector<double> {0, .5, std::ldexp(1., -20), std::ldexp(1., -30), 1 - std::ldexp(1., -20)});
  const int ulps = c.range(-2, 2);
  const bool tiny = c.flip(); // Steps at the scale of the fraction instead of the position
  const Index axis = c.range(0, N - 1);
  c.shard();
  Coord s;
  for (Index i = 0; i < N; ++i) {
    s.push_back(3 + 2 * i);
  }
  Raster<T, N> raster(pos<N>(s));
  for (Index i = 0; i < product(s); ++i) {
    raster[i] = Make<T>::value((i * i * 7 + 3 * i + 2) % 31);
  }
  const std::vector<T> before(raster.begin(), raster.end());
  Model18<T> m {s, before.data(), extra, Make<T>::value(17)};
  double e = tiny ? fraction : base + fraction;
  for (int i = 0; i < std::abs(ulps); ++i) {
    e = std::nextafter(e, ulps < 0 ? -1e300 : 1e300);
  }
  if (tiny) {
    e += base;
  }
  std::vector<double> at(N, 1.);
  at[axis] = e;
  c.note("method ", Method, " extrapolation ", extra, " at ", base, " + ", fraction, " and ", ulps, " units in the last place, axis ", axis);
  auto run = [&](const auto& r) {
    const auto inter = interpolate<I>(r);
    Vector<double, N> v(N);
    std::copy(at.begin(), at.end(), v.begin());
    const auto wide = Model18<T>::wide(inter(v));
    if (Method == NearestI) {
      bool ok = false;
      const auto candidates = m.closest(at);
      for (auto q : candidates) {
        ok = ok || q == wide;
      }
      EXPECT(c, ok, "value is", wide, "instead of one of", candidates);
    } else {
      Coord q(N);
      const auto expected = m.tensor(Method, at, N, q);
      EXPECT(c, std::abs(wide - expected) <= 1e-10, "value is", wide, "instead of", expected);
    }
    c.step();
  };
  if (extra == ConstantE) {
    run(extrapolate(raster, Make<T>::value(17)));
  } else if (extra == NearestE) {
    run(extrapolate<NearestNeighbor>(raster));
  } else {
    run(extrapolate<Periodic>(raster));
  }
  c.outcome(at);
}
template <typename T, Index N>
void precise(mc::Ctx& c) {
  switch (c.pick(3)) {
    case 0:
      return precise18<NearestNeighbor, T, N, NearestI>(c);
    case 1:
      return precise18<Linear, T, N, LinearI>(c);
    default:
      return precise18<Cubic, T, N, CubicI>(c);
  }
}
// Long axes
template <typename I, typename T, Index N, int Method>
void wide18(mc::Ctx& c) {
  const int extra = c.pick(4);
  const Coord s = pickWideShape(c, N, {70001, 300});
  c.shard();
  c.note("shape ", s, " method ", Method, " extrapolation ", extra);
  Raster<T, N> raster(pos<N>(s));
  for (Index i = 0; i < product(s); ++i) {
    raster[i] = Make<T>::value((i % 1009 * (i % 1013) + 3 * (i / 255) + 2) % 31);
  }
  const std::vector<T> before(raster.begin(), raster.end());
  const Model18<T> m {s, before.data(), extra, Make<T>::value(17)};
  auto run = [&](const auto& r) {
    const auto inter = interpolate<I>(r);
    for (Index axis = 0; axis < N; ++axis) {
      for (Index f : {-70002L, -65537L, -300L, -2L, 0L, 1L, 127L, 128L, 254L, 255L, 256L, 298L, 299L, 300L, 32767L, 32768L, 65535L, 65536L, 69998L, 69999L, 70000L, 70001L, 140003L}) {
        for (double d : {0., .25, .75}) {
          std::vector<double> at(N, 0.);
          at[axis] = f + d;
          bool in = true; // In support of the method if there is no extrapolation
          for (Index i = 0; i < N; ++i) {
            const Index lo = i == axis ? Method == NearestI ? (d > .5 ? f + 1 : f) : Method == LinearI ? f : f - 1 : Method == CubicI ? -1 : 0;
            const Index hi = i == axis ? Method == NearestI ? lo : Method == LinearI ? f + 1 : f + 2 : Method == NearestI ? 0 : Method == LinearI ? 1 : 2;
            in = in && lo >= 0 && hi < s[i];
          }
          if (extra == NoneE && not in) {
            continue;
          }
          Vector<double, N> v(N);
          std::copy(at.begin(), at.end(), v.begin());
          const auto wide = Model18<T>::wide(inter(v));
          if (Method == NearestI) {
            EXPECT(c, wide == m.closest(at)[0], "at", at, "value is", wide, "instead of", m.closest(at));
          } else {
            Coord q(N);
            const auto expected = m.tensor(Method, at, N, q);
            EXPECT(c, std::abs(wide - expected) <= 1e-9, "at", at, "value is", wide, "instead of", expected);
          }
          c.step();
        }
      }
    }
  };
  switch (extra) {
    case NoneE:
      run(raster);
      break;
    case ConstantE:
      run(extrapolate(raster, Make<T>::value(17)));
      break;
    case NearestE:
      run(extrapolate<NearestNeighbor>(raster));
      break;
    default:
      run(extrapolate<Periodic>(raster));
  }
  c.outcome(s);
}

template <typename T, Index N>
void wide(mc::Ctx& c) {
  switch (c.pick(3)) {
    case 0:
      return wide18<NearestNeighbor, T, N, NearestI>(c);
    case 1:
      return wide18<Linear, T, N, LinearI>(c);
    default:
      return wide18<Cubic, T, N, CubicI>(c);
  }
}

template <typename T>
void extremes(mc::Ctx& c) {
  switch (c.pick(3)) {
    case 0:
      return extremes18<NearestNeighbor, T, NearestI>(c);
    case 1:
      return extremes18<Linear, T, LinearI>(c);
    default:
      return extremes18<Cubic, T, CubicI>(c);
  }
}

template <typename T, Index N>
void nearest(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 2) : N;
  interpolations<NearestNeighbor, T, N, NearestI>(c, dim, dim == 1 ? c.tier(6, 9) : dim == 2 ? c.tier(3, 4) : 2);
}
template <typename T, Index N>
void linear(mc::Ctx& c) {
  interpolations<Linear, T, N, LinearI>(c, N, N == 1 ? c.tier(6, 9) : N == 2 ? c.tier(3, 4) : N == 3 ? c.tier(2, 3) : 2);
}
template <typename T, Index N>
void cubic(mc::Ctx& c) {
  interpolations<Cubic, T, N, CubicI>(c, N, N == 1 ? c.tier(6, 9) : N == 2 ? c.tier(3, 4) : N == 3 ? c.tier(2, 3) : 4);
}
#endif
