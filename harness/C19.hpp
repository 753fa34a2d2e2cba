#ifndef C19_HPP
#define C19_HPP
// C19: kernel correlation
#include "LitlTransforms/Kernel.h"
#include "util.hpp"
using namespace Litl;

template <typename T>
struct Values19 {
  static T image(Index i) {
    return std::is_floating_point<T>::value ? T((i * 37 + 11) % 97) / T(4) : T((i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return std::is_floating_point<T>::value ? T((i * 53 + 5) % 61) / T(2) - T(9) : T((i * 53 + 5) % 61 - (std::is_signed<T>::value ? 13 : 0));
  }
};
// Products and sums beyond the 53 bits of a double
template <typename T>
struct Wide19 {
  static T image(Index i) {
    return T((1L << 31) + (i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return T((1L << 22) + (i * 53 + 5) % 61) * T(i % 4 == 3 ? -1 : 1);
  }
};
template <>
struct Values19<long> : Wide19<long> {};
template <>
struct Values19<long double> : Wide19<long double> {};
template <typename S>
struct Values19<std::complex<S>> {
  static std::complex<S> image(Index i) {
    return {Values19<S>::image(i), Values19<S>::image(i + 7)};
  }
  static std::complex<S> kernel(Index i) {
    return {Values19<S>::kernel(i), Values19<S>::kernel(i + 7)};
  }
};

// Offset of the extrapolated pixel or -1
inline Index extrapolated(const Coord& s, const Coord& p, int method) {
  Index offset = 0, stride = 1;
  for (std::size_t i = 0; i < s.size(); ++i) {
    Index q = p[i];
    if (q < 0 || q >= s[i]) {
      if (method == 0) {
        return -1;
      }
      q = method == 1 ? (q < 0 ? 0 : s[i] - 1) : ((q % s[i]) + s[i]) % s[i];
    }
    offset += q * stride;
    stride *= s[i];
  }
  return offset;
}

// Kernel values: dense, with null values and rows, constant, symmetric
template <typename T>
T kernel19(const Coord& k, Index i, int content) {
  const Index n = product(k);
  switch (content) {
    case 1:
      return i / k[0] % 2 == 1 || i % 3 == 2 ? T {} : Values19<T>::kernel(i);
    case 2:
      return Values19<T>::kernel(4);
    case 3:
      return Values19<T>::kernel(std::min(i, n - 1 - i));
    default:
      return Values19<T>::kernel(i);
  }
}

template <typename T>
std::enable_if_t<std::is_integral<T>::value, bool> close19(T a, T b) {
  return a == b;
}
template <typename T>
std::enable_if_t<not std::is_integral<T>::value, bool> close19(T a, T b) {
  return std::abs(a - b) <= 1e-3;
}

template <typename TIn, typename TK, Index N, typename TOut>
void correlate19(mc::Ctx& c, const Coord& s, const Coord& k, const Coord& origin, int content) {
  const int method = c.pick(3);
  bool centered = true;
  for (std::size_t i = 0; i < k.size(); ++i) {
    centered = centered && origin[i] == k[i] / 2;
  }
  c.note("image ", s, " kernel ", k, " origin ", origin, " content ", content, " method ", method);

  Raster<TIn, N> in(pos<N>(s));
  for (Index i = 0; i < product(s); ++i) {
    in[i] = Values19<TIn>::image(i);
  }
  Raster<TK, N> values(pos<N>(k));
  for (Index i = 0; i < product(k); ++i) {
    values[i] = kernel19<TK>(k, i, content);
  }
  const std::vector<TIn> before(in.begin(), in.end());
  const TIn constant = Make<TIn>::value(3);

  // Model
  std::vector<TOut> expected;
  std::vector<TK> expectedProduct; // In the type of the kernel
  const auto window = shapePositions(k);
  for (const auto& p : shapePositions(s)) {
    decltype(TK() * TIn()) sum {};
    for (std::size_t j = 0; j < window.size(); ++j) {
      const Index o = extrapolated(s, plus(plus(p, window[j]), origin, -1), method);
      sum += values[j] * (o < 0 ? constant : before[o]);
    }
    expected.push_back(TOut(sum));
    expectedProduct.push_back(TK(sum));
  }

  auto check = [&](auto& kernel) {
    EXPECT_EQ(c, coord<N>(kernel.window().front()), plus(Coord(k.size(), 0), origin, -1));
    EXPECT_EQ(c, coord<N>(kernel.shape()), k);
    EXPECT_EQ(c, kernel.raster(), values);
    // Guarded output
    const std::size_t n = expected.size();
    std::vector<TOut> buffer(n + 4, Make<TOut>::value(77));
    PtrRaster<TOut, N> out(pos<N>(s), buffer.data() + 2);
    std::vector<TK> product;
    auto run = [&](const auto& extra) {
      kernel.correlateTo(extra, out);
      const auto res = kernel * extra;
      EXPECT_EQ(c, coord<N>(res.shape()), s);
      product.assign(res.begin(), res.end());
    };
    switch (method) {
      case 0:
        run(extrapolate(in, constant));
        break;
      case 1:
        run(extrapolate<NearestNeighbor>(in));
        break;
      default:
        run(extrapolate<Periodic>(in));
    }
    c.step(2 * n);
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, close19(out[i], expected[i]), "correlateTo: pixel", i, "is", out[i], "instead of", expected[i]);
      EXPECT(c, close19(product[i], expectedProduct[i]), "operator*: pixel", i, "is", product[i], "instead of", expectedProduct[i]);
    }
    for (std::size_t i : {std::size_t(0), std::size_t(1), n + 2, n + 3}) {
      EXPECT(c, buffer[i] == Make<TOut>::value(77), "memory outside of the output was written");
    }
    EXPECT(c, std::equal(before.begin(), before.end(), in.begin()), "the input was modified");
    EXPECT_EQ(c, kernel.raster(), values);
  };
  if (centered) {
    auto kernel = kernelize(values);
    check(kernel);
  }
  if (!centered || c.flip()) {
    auto kernel = kernelize(values, pos<N>(origin));
    check(kernel);
  }
  c.outcome(expected);
}

template <typename TIn, typename TK, Index N, typename TOut>
void kernels(mc::Ctx& c) {
  const Index D = N == -1 ? 3 : N; // Dimension
  const Index imageMax = D == 1 ? c.tier(6, 9) : D == 2 ? c.tier(4, 6) : D == 3 ? c.tier(3, 4) : 2;
  const Index kernelMax = D == 1 ? c.tier(5, 9) : D == 2 ? c.tier(3, 4) : D == 3 ? 3 : 2;
  const Coord s = pickShape(c, D, 1, imageMax);
  const Coord k = pickShape(c, D, 1, kernelMax);
  c.shard();
  Coord origin;
  for (auto l : k) {
    origin.push_back(c.range(0, l - 1));
  }
  const int content = product(k) == 1 ? 0 : c.pick(D == 3 ? c.tier(2, 4) : 4);
  correlate19<TIn, TK, N, TOut>(c, s, k, origin, content);
}

// Long axes
template <typename TIn, typename TK, Index N, typename TOut>
void wide(mc::Ctx& c) {
  const Coord s = pickWideShape(c, N, {70001, 300});
  const Coord k = pickShape(c, N, N == 1 ? 1 : 2, N == 1 ? 3 : 2);
  c.shard();
  Coord origin;
  for (auto l : k) {
    origin.push_back(l - 1);
  }
  correlate19<TIn, TK, N, TOut>(c, s, k, origin, 0);
}

// Windows which do not necessarily contain the origin
template <typename TIn, typename TK, Index N, typename TOut>
void outside(mc::Ctx& c) {
  const Index D = N == -1 ? 2 : N; // Dimension
  const Coord s = pickShape(c, D, 1, D == 1 ? c.tier(6, 8) : D == 2 ? c.tier(4, 5) : c.tier(2, 3));
  const Coord k = pickShape(c, D, 1, D == 1 ? c.tier(3, 5) : D == 2 ? c.tier(2, 3) : 2);
  c.shard();
  Coord origin;
  const Index away = D == 1 ? c.tier(8, 10) : D == 2 ? c.tier(2, 5) : c.tier(1, 3);
  for (auto l : k) {
    origin.push_back(c.range(-away, l - 1 + away));
  }
  correlate19<TIn, TK, N, TOut>(c, s, k, origin, 0);
}

// Larger images and kernels
template <typename TIn, typename TK, Index N, typename TOut>
void large(mc::Ctx& c) {
  Coord s, k, origin;
  for (Index i = 0; i < N; ++i) {
    s.push_back(N == 1 ? c.of<Index>({1, 20, 64, 257}) : N == 2 ? c.of<Index>({3, 24}) : c.of<Index>({2, 9}));
    k.push_back(N == 1 ? c.of<Index>({7, 16, 33, 65}) : N == 2 ? c.of<Index>({1, 5, 8, 17}) : c.of<Index>({1, 4, 5}));
    origin.push_back(c.of<Index>({0, k[i] / 2, k[i] - 1}));
  }
  c.shard();
  correlate19<TIn, TK, N, TOut>(c, s, k, origin, c.pick(N == 1 ? 4 : c.tier(1, 4)));
}
#endif
