// C22: sparse correlations
#include "LitlTransforms/Convolution.h"
#include "util.hpp"
using namespace Litl;

template <typename T>
struct Values22 {
  static T image(Index i) {
    return std::is_floating_point<T>::value ? T((i * 37 + 11) % 97) / T(4) : T((i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return std::is_floating_point<T>::value ? T((i * 53 + 5) % 61) / T(2) - T(9) : T((i * 53 + 5) % 61 - (std::is_signed<T>::value ? 13 : 0));
  }
};
// Products and sums beyond the 53 bits of a double
template <typename T>
struct Wide22 {
  static T image(Index i) {
    return T((1L << 31) + (i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return T((1L << 22) + (i * 53 + 5) % 61) * T(i % 4 == 3 ? -1 : 1);
  }
};
template <>
struct Values22<long> : Wide22<long> {};
template <>
struct Values22<long double> : Wide22<long double> {};
template <typename S>
struct Values22<std::complex<S>> {
  static std::complex<S> image(Index i) {
    return {Values22<S>::image(i), Values22<S>::image(i + 7)};
  }
  static std::complex<S> kernel(Index i) {
    return {Values22<S>::kernel(i), Values22<S>::kernel(i + 7)};
  }
};

template <typename T>
std::vector<T> kernelValues22(Index size, int content = 0) {
  std::vector<T> out;
  for (Index i = 0; i < size; ++i) { // Dense, with null values, constant, symmetric, antisymmetric
    const auto v = Values22<T>::kernel(content == 2 ? 4 : content > 2 ? std::min(i, size - 1 - i) : i);
    out.push_back(content == 1 && i % 3 != 1 ? T {} : content == 4 && i >= size / 2 ? size % 2 == 1 && i == size / 2 ? T {} : T {} - v : v);
  }
  return out;
}

// Cropped sum at index i of a line
template <typename TK, typename F>
auto cropped22(const std::vector<TK>& kernel, Index origin, Index length, Index i, F&& in) {
  decltype(TK() * in(0)) sum {};
  for (Index k = 0; k < Index(kernel.size()); ++k) {
    const Index j = i + k - origin;
    if (j >= 0 && j < length) {
      sum = sum + kernel[k] * in(j);
    }
  }
  return sum;
}

template <typename TIn, typename TK, typename TOut, bool Outside = false>
void lines(mc::Ctx& c) {
  const Index kernelSize = c.range(1, Outside ? c.tier(3, 5) : c.tier(5, 7));
  const Index size = c.range(0, Outside ? c.tier(5, 7) : c.tier(7, 10));
  const Index away = Outside ? size + 2 : 0; // Origin outside of the kernel
  const Index origin = c.range(-away, kernelSize - 1 + away);
  c.shard();
  const Index stride = c.range(1, 2);
  const Index front = c.range(0, size);
  const bool toEnd = c.flip();
  const Index back = toEnd ? size - 1 : c.range(front - 1, size - 1);
  const Index step = c.range(1, 3);
  std::vector<Index> indices;
  for (Index i = front; i <= back; i += step) {
    indices.push_back(i);
  }
  const Index outStride = c.range(1, 2);
  const Index outFront = c.range(0, 1);
  const int content = outFront == 1 || outStride == 2 || kernelSize == 1 ? 0 : c.pick(5);
  const Index outStep = c.range(1, 2);
  const bool outToEnd = indices.empty() || c.flip();
  c.note("kernel size ", kernelSize, " origin ", origin, " line size ", size, " stride ", stride, " front ", front, " back ", back, " step ", step, " out stride ", outStride,
         " front ", outFront, " step ", outStep);
  const auto values = kernelValues22<TK>(kernelSize, content);
  const Kernel1d<TK> kernel(values, origin);
  EXPECT(c, kernel.backward() == origin && kernel.forward() == kernelSize - 1 - origin && (Outside || mc::same(*kernel.originData(), values[origin])));
  EXPECT_EQ(c, std::vector<TK>(kernel.begin(), kernel.end()), values);
  // Buffers end with the last sample, such that any access past it is detected
  std::vector<TIn> in;
  for (Index i = 0; i < (size == 0 ? 0 : (size - 1) * stride + 1); ++i) {
    in.push_back(Values22<TIn>::image(i));
  }
  in.shrink_to_fit();
  const auto inBefore = in;
  const Index n = indices.size();
  const Index outSize = n == 0 ? 0 : outFront + (n - 1) * outStep + 1;
  std::vector<TOut> out;
  for (Index i = 0; i < (n == 0 ? 0 : (outSize - 1) * outStride + 1); ++i) {
    out.push_back(TOut(1000 + i));
  }
  out.shrink_to_fit();
  auto expected = out;
  for (Index i = 0; i < n; ++i) {
    expected[(outFront + i * outStep) * outStride] = TOut(cropped22(values, origin, size, indices[i], [&](Index j) {
      return in[j * stride];
    }));
  }
  const DataSamples<const TIn> inSamples(in.data(), size, {front, toEnd ? Limits<Index>::inf() : back, step}, stride);
  DataSamples<TOut> outSamples(out.data(), outSize, {n == 0 ? 0 : outFront, outToEnd ? Limits<Index>::inf() : outSize - 1, outStep}, outStride);
  kernel.sparseCorrelate1dTo(inSamples, outSamples);
  EXPECT_EQ(c, out, expected);
  EXPECT_EQ(c, in, inBefore);
  c.step(n + 1);
  c.outcome(expected);
}

// Longer lines and kernels
template <typename TIn, typename TK, typename TOut>
void longLines(mc::Ctx& c) {
  const Index kernelSize = c.of<Index>({8, 15, 32, 65, 300});
  const Index origin = c.of<Index>({0, 1, kernelSize / 2, kernelSize - 1});
  const Index size = c.of<Index>({1, 16, 33, 64, 200, 700, 70001});
  const int content = c.pick(size > 1000 ? 1 : 5);
  if (size > 1000 && kernelSize > 15) {
    c.prune();
  }
  c.shard();
  const Index front = c.of<Index>({0, size / 2});
  const Index step = c.of<Index>({1, 2, 7});
  c.note("kernel size ", kernelSize, " origin ", origin, " content ", content, " line size ", size, " front ", front, " step ", step);
  const auto values = kernelValues22<TK>(kernelSize, content);
  const Kernel1d<TK> kernel(values, origin);
  std::vector<TIn> in;
  for (Index i = 0; i < size; ++i) {
    in.push_back(Values22<TIn>::image(i));
  }
  in.shrink_to_fit();
  std::vector<TOut> expected;
  for (Index i = front; i < size; i += step) {
    expected.push_back(TOut(cropped22(values, origin, size, i, [&](Index j) {
      return in[j];
    })));
  }
  std::vector<TOut> out(expected.size());
  const DataSamples<const TIn> inSamples(in.data(), size, {front, size - 1, step}, 1);
  DataSamples<TOut> outSamples(out.data(), out.size());
  kernel.sparseCorrelate1dTo(inSamples, outSamples);
  EXPECT_EQ(c, out, expected);
  c.step();
  c.outcome(expected);
}

// Along each axis
template <Index N, Index Axis, typename TIn, typename TK, typename TOut>
void along(mc::Ctx& c) {
  const Index dim = N == -1 ? 3 : N;
  const Coord s = pickShape(c, dim, dim > 3, dim == 1 ? c.tier(7, 10) : dim == 2 ? c.tier(5, 7) : dim > 3 ? c.tier(2, 3) : c.tier(3, 4));
  const Index kernelSize = c.range(1, dim > 3 ? 3 : c.tier(5, 7));
  const Index origin = c.range(0, kernelSize - 1);
  c.shard();
  c.note("shape ", s, " kernel size ", kernelSize, " origin ", origin);
  const auto values = kernelValues22<TK>(kernelSize);
  const Kernel1d<TK> kernel(values, origin);
  Raster<TIn, N> in(pos<N>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values22<TIn>::image(i);
  }
  const std::vector<TIn> before(in.begin(), in.end());
  Index stride = 1;
  for (Index i = 0; i < Axis; ++i) {
    stride *= s[i];
  }
  std::vector<TOut> expected(before.size());
  for (Index o = 0; o < Index(expected.size()); ++o) {
    const Index i = o / stride % s[Axis];
    expected[o] = TOut(cropped22(values, origin, s[Axis], i, [&](Index j) {
      return before[o + (j - i) * stride];
    }));
  }
  const auto out = kernel.template correlateAlong<Axis, TOut>(in);
  EXPECT_EQ(c, coord<N>(out.shape()), s);
  EXPECT_EQ(c, std::vector<TOut>(out.begin(), out.end()), expected);
  EXPECT_EQ(c, std::vector<TIn>(in.begin(), in.end()), before);
  const PtrRaster<const TIn, N> view(pos<N>(s), in.data());
  const auto out2 = kernel.template correlateAlong<Axis, TOut>(view);
  EXPECT_EQ(c, std::vector<TOut>(out2.begin(), out2.end()), expected);
  c.step(2);
  c.outcome(expected);
}

// Long axes
template <Index N, Index Axis>
void wideAlong(mc::Ctx& c) {
  const Coord s = pickWideShape(c, N, {70001, 300});
  const Index kernelSize = c.of<Index>({2, 3});
  const Index origin = c.range(0, kernelSize - 1);
  c.shard();
  c.note("shape ", s, " kernel size ", kernelSize, " origin ", origin);
  const auto values = kernelValues22<int>(kernelSize);
  const Kernel1d<int> kernel(values, origin);
  Raster<int, N> in(pos<N>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values22<int>::image(i);
  }
  Index stride = 1;
  for (Index i = 0; i < Axis; ++i) {
    stride *= s[i];
  }
  std::vector<int> expected(in.size());
  for (Index o = 0; o < Index(expected.size()); ++o) {
    expected[o] = cropped22(values, origin, s[Axis], o / stride % s[Axis], [&](Index j) {
      return in[o + (j - o / stride % s[Axis]) * stride];
    });
  }
  const auto out = kernel.template correlateAlong<Axis, int>(in);
  EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), expected);
  c.step();
  c.outcome(expected);
}

SCENARIO(widePlane) {
  const Coord s = pickWideShape(c, 2, {70001, 300});
  const Index kernelSize = c.of<Index>({2, 3});
  const Index origin = c.range(0, kernelSize - 1);
  const Index step = c.of<Index>({1, 3, 256, 1000});
  c.shard();
  const Coord front {c.of<Index>({0, s[0] / 2, s[0] - 1}), c.of<Index>({0, s[1] / 2, s[1] - 1})};
  c.note("shape ", s, " kernel size ", kernelSize, " origin ", origin, " step ", step, " front ", front);
  const auto values = kernelValues22<int>(kernelSize);
  Kernel1d<int> kernel(values, origin);
  Raster<int, 2> in(pos<2>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values22<int>::image(i);
  }
  std::vector<int> expected;
  const auto along = [&](Index i, Index j) {
    return cropped22(values, origin, s[0], i, [&](Index k) {
      return in[k + j * s[0]];
    });
  };
  Coord outShape;
  for (int i = 0; i < 2; ++i) {
    outShape.push_back((s[i] - 1 - front[i]) / step + 1);
  }
  for (Index j = front[1]; j < s[1]; j += step) {
    for (Index i = front[0]; i < s[0]; i += step) {
      expected.push_back(cropped22(values, origin, s[1], j, [&](Index k) {
        return along(i, k);
      }));
    }
  }
  Raster<int, 2> out(pos<2>(outShape));
  kernel.sparseCorrelate2dTo(in, PositionSampling<2>(Box<2>(pos<2>(front), pos<2>(plus(s, -1))), pos<2>({step, step})), out);
  EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), expected);
  c.step();
  c.outcome(expected);
}

// Along the first two axes, for any region and step
template <Index N, typename TIn, typename TK, typename TOut, bool Outside = false>
void plane(mc::Ctx& c) {
  const Coord s {c.range(1, Outside ? c.tier(3, 4) : c.tier(4, 5)), c.range(1, c.tier(4, 5))};
  const Index kernelSize = c.range(1, Outside ? c.tier(2, 3) : c.tier(4, 5));
  const Index away = Outside ? s[1] + 1 : 0; // Origin outside of the kernel
  const Index origin = c.range(-away, kernelSize - 1 + away);
  c.shard();
  c.note("shape ", s, " kernel size ", kernelSize, " origin ", origin);
  const auto values = kernelValues22<TK>(kernelSize);
  Kernel1d<TK> kernel(values, origin);
  Raster<TIn, N> in(pos<N>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values22<TIn>::image(i);
  }
  const std::vector<TIn> before(in.begin(), in.end());
  // Full correlation
  std::vector<TOut> x(before.size());
  std::vector<TOut> full(before.size());
  for (Index o = 0; o < Index(x.size()); ++o) {
    const Index i = o % s[0];
    x[o] = TOut(cropped22(values, origin, s[0], i, [&](Index j) {
      return before[o + j - i];
    }));
  }
  for (Index o = 0; o < Index(x.size()); ++o) {
    const Index i = o / s[0];
    full[o] = TOut(cropped22(values, origin, s[1], i, [&](Index j) {
      return x[o + (j - i) * s[0]];
    }));
  }
  {
    Raster<TOut, N> out(pos<N>(s));
    out.fill(TOut(77));
    kernel.correlate2dTo(in, out);
    EXPECT_EQ(c, std::vector<TOut>(out.begin(), out.end()), full);
  }
  Coord front, back;
  for (int i = 0; i < 2; ++i) {
    front.push_back(c.range(0, s[i] - 1));
    back.push_back(c.range(front[i], s[i] - 1));
  }
  const Coord step {c.range(1, 3), c.range(1, 3)};
  c.note("front ", front, " back ", back, " step ", step);
  Coord outShape;
  for (int i = 0; i < 2; ++i) {
    outShape.push_back((back[i] - front[i]) / step[i] + 1);
  }
  Raster<TOut, N> out(pos<N>(outShape));
  out.fill(TOut(77));
  const PositionSampling<N> sampling(Box<N>(pos<N>(front), pos<N>(back)), pos<N>(step));
  const auto& k = kernel;
  k.sparseCorrelate2dTo(in, sampling, out);
  std::vector<TOut> expected;
  for (Index j = front[1]; j <= back[1]; j += step[1]) {
    for (Index i = front[0]; i <= back[0]; i += step[0]) {
      expected.push_back(full[i + j * s[0]]);
    }
  }
  EXPECT_EQ(c, std::vector<TOut>(out.begin(), out.end()), expected);
  EXPECT_EQ(c, std::vector<TIn>(in.begin(), in.end()), before);
  c.step(2);
  c.outcome(expected);
}

TINSTANCE(wideAlong, 1, 0);
TINSTANCE(wideAlong, 2, 0);
TINSTANCE(wideAlong, 2, 1);
TINSTANCE(wideAlong, 3, 2);
TINSTANCE(lines, int, int, int);
TINSTANCE(lines, double, int, double);
TINSTANCE(lines, float, short, double);
TINSTANCE(longLines, int, int, int);
TINSTANCE(longLines, double, int, float);
TINSTANCE(lines, int, float, double);
TINSTANCE(lines, float, std::complex<float>, std::complex<float>);
TINSTANCE(along, 1, 0, int, int, int);
TINSTANCE(along, 2, 0, int, int, double);
TINSTANCE(along, 2, 1, int, float, float);
TINSTANCE(along, 3, 0, int, int, int);
TINSTANCE(along, 3, 1, int, int, int);
TINSTANCE(along, 3, 2, int, int, int);
TINSTANCE(along, 4, 3, int, int, int);
TINSTANCE(along, 4, 1, int, int, int);
TINSTANCE(along, 5, 4, int, int, int);
TINSTANCE(along, 5, 2, int, int, int);
TINSTANCE(along, -1, 1, int, int, int);
TINSTANCE(along, -1, 2, float, std::complex<float>, std::complex<float>);
TINSTANCE(plane, 2, int, int, int);
TINSTANCE(plane, 2, int, double, double);
TINSTANCE(plane, 2, double, int, double);
TINSTANCE(along, 2, 1, double, int, double);
TINSTANCE(plane, -1, int, int, int);
TINSTANCE(plane, 2, float, std::complex<float>, std::complex<float>);
TINSTANCE(lines, long, long, long);
TINSTANCE(longLines, long, long, long);
TINSTANCE(lines, long double, long double, long double);
TINSTANCE(along, 2, 1, long, long, long);
TINSTANCE(plane, 2, long, long, long);

template <typename TIn, typename TK, typename TOut>
void outside(mc::Ctx& c) {
  lines<TIn, TK, TOut, true>(c);
}
template <Index N, typename TIn, typename TK, typename TOut>
void planeOutside(mc::Ctx& c) {
  plane<N, TIn, TK, TOut, true>(c);
}
TINSTANCE(outside, int, int, int);
TINSTANCE(planeOutside, 2, int, int, int);
// The other supported types
TINSTANCE(outside, short, short, short);
TINSTANCE(outside, unsigned short, unsigned short, unsigned short);
TINSTANCE(outside, unsigned, unsigned, unsigned);
TINSTANCE(outside, unsigned long, unsigned long, unsigned long);
TINSTANCE(outside, long long, long long, long long);
TINSTANCE(outside, unsigned long long, unsigned long long, unsigned long long);
TINSTANCE(outside, float, float, float);
TINSTANCE(outside, double, double, double);
TINSTANCE(outside, std::complex<double>, std::complex<double>, std::complex<double>);
TINSTANCE(outside, std::complex<long double>, std::complex<long double>, std::complex<long double>);
