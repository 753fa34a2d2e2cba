#include "C20.hpp"

template <typename T>
std::vector<T> strided20(Index size, Index stride) {
  std::vector<T> out;
  for (Index i = 0; i < size; ++i) {
    out.push_back(Values20<T>::image(i));
  }
  return out;
}

template <typename TIn, typename TK, typename TOut, bool Outside = false>
void lines(mc::Ctx& c) {
  const Index kernelSize = c.range(1, Outside ? c.tier(3, 5) : c.tier(5, 7));
  const Index size = c.range(0, Outside ? c.tier(5, 7) : c.tier(7, 10));
  const Index away = Outside ? size + 2 : 0; // Origin outside of the kernel
  const Index origin = c.range(-away, kernelSize - 1 + away);
  c.shard();
  const Index stride = c.range(1, 2);
  const Index front = c.range(0, size);
  const bool toEnd = c.flip();
  const Index back = toEnd ? size - 1 : c.range(front - 1, size - 1);
  const Index step = c.range(1, 3);
  std::vector<Index> indices;
  for (Index i = front; i <= back; i += step) {
    indices.push_back(i);
  }
  const Index outStride = c.range(1, 2);
  const Index outFront = c.range(0, 1);
  const int content = outFront == 1 || outStride == 2 || kernelSize == 1 ? 0 : c.pick(5);
  const Index outStep = c.range(1, 2);
  const bool outToEnd = indices.empty() || c.flip();
  c.note("kernel size ", kernelSize, " origin ", origin, " line size ", size, " stride ", stride, " front ", front, " back ", back, " step ", step, " out stride ", outStride,
         " front ", outFront, " step ", outStep);
  const auto values = kernelValues20<TK>(kernelSize, 0, content);
  const LineKernel<TK> kernel(values, origin);
  // Buffers end with the last sample, such that any access past it is detected
  std::vector<TIn> in;
  for (Index i = 0; i < (size == 0 ? 0 : (size - 1) * stride + 1); ++i) {
    in.push_back(Values20<TIn>::image(i));
  }
  in.shrink_to_fit();
  const auto inBefore = in;
  const Index n = indices.size();
  const Index outSize = n == 0 ? 0 : outFront + (n - 1) * outStep + 1;
  std::vector<TOut> out;
  for (Index i = 0; i < (n == 0 ? 0 : (outSize - 1) * outStride + 1); ++i) {
    out.push_back(TOut(1000 + i));
  }
  out.shrink_to_fit();
  auto expected = out;
  for (Index i = 0; i < n; ++i) {
    expected[(outFront + i * outStep) * outStride] = TOut(cropped20(values, origin, size, indices[i], [&](Index j) {
      return in[j * stride];
    }));
  }
  const DataSamples<const TIn> inSamples(in.data(), size, {front, toEnd ? Limits<Index>::inf() : back, step}, stride);
  DataSamples<TOut> outSamples(out.data(), outSize, {n == 0 ? 0 : outFront, outToEnd ? Limits<Index>::inf() : outSize - 1, outStep}, outStride);
  kernel.correlate(inSamples, outSamples);
  EXPECT_EQ(c, out, expected);
  EXPECT_EQ(c, in, inBefore);
  if (stride == 1 && outStride == 1) {
    auto mutableIn = in;
    mutableIn.shrink_to_fit();
    const DataSamples<TIn> mutableSamples(mutableIn.data(), size, {front, back, step}, stride);
    std::fill(out.begin(), out.end(), TOut(7));
    kernel.correlate(mutableSamples, outSamples);
    for (Index i = 0; i < n; ++i) {
      EXPECT_EQ(c, out[outFront + i * outStep], expected[outFront + i * outStep]);
    }
  }
  EXPECT(c, kernel == LineKernel<TK>(values, origin));
  c.step(n + 1);
  c.outcome(expected);
}

// Longer lines and kernels
template <typename TIn, typename TK, typename TOut>
void longLines(mc::Ctx& c) {
  const Index kernelSize = c.of<Index>({8, 15, 32, 65, 300, 1025});
  const Index origin = c.of<Index>({0, 1, kernelSize / 2, kernelSize - 1});
  const Index size = c.of<Index>({1, 16, 33, 64, 200, 700, 70001});
  const int content = c.pick(size > 1000 ? 1 : 5);
  if ((size > 1000 && kernelSize > 15) || (kernelSize > 1000 && content != 0)) {
    c.prune();
  }
  c.shard();
  const Index front = c.of<Index>({0, size / 2});
  const Index step = c.of<Index>({1, 2, 7});
  c.note("kernel size ", kernelSize, " origin ", origin, " content ", content, " line size ", size, " front ", front, " step ", step);
  const auto values = kernelValues20<TK>(kernelSize, 0, content);
  const LineKernel<TK> kernel(values, origin);
  EXPECT(c, kernel.origin() == origin && Index(kernel.size()) == kernelSize && kernel.originData() == kernel.data() + origin);
  EXPECT(c, kernel.window().front() == -origin && kernel.window().back() == kernelSize - 1 - origin, "window");
  std::vector<TIn> in;
  for (Index i = 0; i < size; ++i) {
    in.push_back(Values20<TIn>::image(i));
  }
  in.shrink_to_fit();
  std::vector<TOut> expected;
  for (Index i = front; i < size; i += step) {
    expected.push_back(TOut(cropped20(values, origin, size, i, [&](Index j) {
      return in[j];
    })));
  }
  std::vector<TOut> out(expected.size());
  const DataSamples<const TIn> inSamples(in.data(), size, {front, size - 1, step}, 1);
  DataSamples<TOut> outSamples(out.data(), out.size());
  kernel.correlate(inSamples, outSamples);
  EXPECT_EQ(c, out, expected);
  c.step();
  c.outcome(expected);
}

// Same kernel whatever the way it is built
template <typename T>
void builders(mc::Ctx& c) {
  const Index small = c.range(0, c.tier(7, 12));
  const Index size = small ? small : c.of<Index>({300, 1025}); // Larger than one or two bytes
  const Index origin = small ? c.range(0, size - 1) : c.of<Index>({0, 127, 150, 255, 256, 299, size - 1});
  const auto values = kernelValues20<T>(size, c.range(0, 3));
  c.note("size ", size, " origin ", origin);
  auto verify = [&](const LineKernel<T>& k, Index o, const char* what) {
    EXPECT(c, Index(k.size()) == size && k.origin() == o, what, ": size", k.size(), "origin", k.origin(), "instead of", o);
    EXPECT(c, k.window().front() == -o && k.window().back() == size - 1 - o && Index(k.window().size()) == size, what, ": window from", k.window().front(), "to",
           k.window().back());
    EXPECT(c, k.originData() == k.data() + o && mc::same(*k.originData(), values[o]), what, ": origin data");
    EXPECT_EQ(c, std::vector<T>(k.begin(), k.end()), values);
    // Response to a long line
    std::vector<T> in(3 * size), out(3 * size);
    for (Index i = 0; i < 3 * size; ++i) {
      in[i] = Values20<T>::image(i);
    }
    DataSamples<const T> inSamples(in.data(), in.size());
    DataSamples<T> outSamples(out.data(), out.size());
    k.correlate(inSamples, outSamples);
    for (Index i = 0; i < 3 * size; ++i) {
      EXPECT_EQ(c, out[i], cropped20(values, o, 3 * size, i, [&](Index j) {
                  return in[j];
                }));
    }
    c.step();
  };
  verify(LineKernel<T>(values, origin), origin, "values and origin");
  verify(LineKernel<T>(std::vector<T>(values), origin), origin, "temporary and origin");
  verify(LineKernel<T>(values), size / 2, "values");
  verify(LineKernel<T>(std::vector<T>(values)), size / 2, "temporary");
  verify(kernelize(values.data(), Segment(-origin, size - 1 - origin)), origin, "pointer and window");
  const Sequence<T> sequence(values);
  verify(kernelize(sequence, origin), origin, "sequence and origin");
  verify(kernelize(sequence), size / 2, "sequence");
  LineKernel<T> k(values, origin);
  const auto copy = k;
  verify(copy, origin, "copy");
  LineKernel<T> other(kernelValues20<T>(2, 9), 1);
  other = k;
  verify(other, origin, "assigned");
  const auto moved = std::move(k);
  verify(moved, origin, "moved");
  const auto s = moved.template along<1>();
  verify(s[1], origin, "along");
  c.outcome(values);
}

TINSTANCE(lines, int, int, int);
TINSTANCE(lines, double, int, double);
TINSTANCE(lines, float, short, double);
TINSTANCE(longLines, int, int, int);
TINSTANCE(longLines, double, int, float);
TINSTANCE(lines, int, float, double);
TINSTANCE(lines, float, std::complex<float>, std::complex<float>);
TINSTANCE(lines, double, double, float);
TINSTANCE(builders, int);
TINSTANCE(builders, double);
TINSTANCE(builders, std::complex<double>);
TINSTANCE(lines, long, long, long);
TINSTANCE(longLines, long, long, long);
TINSTANCE(lines, long double, long double, long double);

template <typename TIn, typename TK, typename TOut>
void outside(mc::Ctx& c) {
  lines<TIn, TK, TOut, true>(c);
}
TINSTANCE(outside, int, int, int);
TINSTANCE(outside, float, double, double);
// The other supported types
TINSTANCE(outside, short, short, short);
TINSTANCE(outside, unsigned short, unsigned short, unsigned short);
TINSTANCE(outside, unsigned, unsigned, unsigned);
TINSTANCE(outside, unsigned long, unsigned long, unsigned long);
TINSTANCE(outside, long long, long long, long long);
TINSTANCE(outside, unsigned long long, unsigned long long, unsigned long long);
TINSTANCE(outside, float, float, float);
TINSTANCE(outside, std::complex<double>, std::complex<double>, std::complex<double>);
TINSTANCE(outside, std::complex<long double>, std::complex<long double>, std::complex<long double>);
