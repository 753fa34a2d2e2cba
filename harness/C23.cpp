// C23: median filtering
#include "LitlTransforms/MedianFilter.h"
#include "util.hpp"
#include <deque>
using namespace Litl;

template <typename T>
T letter(Index i) {
  static const std::vector<double> letters {10, 3, 200, 11, 70};
  static const std::vector<double> signs {1, -1, -1, -1, 1}; // Negative neighbourhoods, too
  return T((sizeof(T) == 1 && std::is_signed<T>::value ? letters[i % 5] / 2 : letters[i % 5]) * (std::is_signed<T>::value ? signs[i % 5] : 1));
}

inline Index extrapolated(const Coord& s, const Coord& p, int method) {
  Index offset = 0, stride = 1;
  for (std::size_t i = 0; i < s.size(); ++i) {
    Index q = p[i];
    if (q < 0 || q >= s[i]) {
      if (method == 0) {
        return -1;
      }
      q = method == 1 ? (q < 0 ? 0 : s[i] - 1) : ((q % s[i]) + s[i]) % s[i];
    }
    offset += q * stride;
    stride *= s[i];
  }
  return offset;
}

template <typename TOut, typename T>
TOut median23(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  const auto n = v.size();
  return n % 2 == 1 ? TOut(v[n / 2]) : TOut((double(v[n / 2 - 1]) + double(v[n / 2])) / 2);
}

template <typename TOut, typename T, Index N>
struct Filter23 {
  mc::Ctx& c;
  const Coord& s;
  const Coord& front;
  const Coord& back;
  int method;

  Raster<T, N> in {pos<N>(s)};
  std::vector<T> before {};
  std::vector<TOut> expected {};
  T constant = letter<T>(3);

  void model() {
    before.assign(in.begin(), in.end());
    const auto window = boxPositions(front, back);
    expected.clear();
    for (const auto& p : shapePositions(s)) {
      std::vector<T> neighbors;
      for (const auto& q : window) {
        const Index o = extrapolated(s, plus(p, q), method);
        neighbors.push_back(o < 0 ? constant : before[o]);
      }
      expected.push_back(median23<TOut>(neighbors));
    }
  }

  template <typename F>
  void with(F&& f) {
    switch (method) {
      case 0:
        f(extrapolate(in, constant));
        break;
      case 1:
        f(extrapolate<NearestNeighbor>(in));
        break;
      default:
        f(extrapolate<Periodic>(in));
    }
  }

  void whole(MedianFilter<T, N>& filter) {
    with([&](const auto& extra) {
      const auto out = filter.apply(extra);
      EXPECT_EQ(c, coord<N>(out.shape()), s);
      for (std::size_t i = 0; i < expected.size(); ++i) {
        EXPECT(c, out[i] == T(expected[i]), "apply: pixel", i, "is", out[i], "instead of", T(expected[i]));
      }
      std::vector<TOut> buffer(expected.size() + 4, TOut(77));
      PtrRaster<TOut, N> to(pos<N>(s), buffer.data() + 2);
      filter.applyTo(extra, to);
      auto guarded = std::vector<TOut>(2, TOut(77));
      guarded.insert(guarded.end(), expected.begin(), expected.end());
      guarded.resize(buffer.size(), TOut(77));
      EXPECT_EQ(c, buffer, guarded);
    });
    EXPECT(c, std::equal(before.begin(), before.end(), in.begin()), "the input was modified");
    c.step(2 * expected.size());
  }

  void region(MedianFilter<T, N>& filter, const Coord& f, const Coord& b) {
    with([&](const auto& extra) {
      Raster<TOut, N> out(pos<N>(s));
      out.fill(TOut(77));
      filter.applyTo(extra, out, Box<N>(pos<N>(f), pos<N>(b)));
      std::vector<TOut> result(expected.size(), TOut(77));
      for (const auto& p : boxPositions(f, b)) {
        result[offsetOf(s, p)] = expected[offsetOf(s, p)];
      }
      EXPECT_EQ(c, std::vector<TOut>(out.begin(), out.end()), result);
    });
    EXPECT(c, std::equal(before.begin(), before.end(), in.begin()), "the input was modified");
    c.step();
  }
};

// All contents
template <typename T, typename TOut, Index N>
void contents(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  const Coord s = dim == 1 ? Coord {c.range(1, c.tier(5, 6))} : c.of(c.thorough() ? std::vector<Coord> {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}} : std::vector<Coord> {{1, 2}, {2, 2}, {3, 1}});
  Coord front, back;
  for (Index i = 0; i < dim; ++i) {
    front.push_back(c.range(dim == 1 ? -4 : c.tier(-1, -2), 1));
    back.push_back(front.back() + c.range(0, dim == 1 ? 4 : c.tier(1, 2)));
  }
  c.shard();
  const int method = c.pick(3);
  c.note("shape ", s, " window ", front, " ", back, " method ", method);
  Filter23<TOut, T, N> f {c, s, front, back, method};
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = letter<T>(c.pick(dim == 1 ? 4 : 3));
  }
  c.note("values ", std::vector<T>(f.in.begin(), f.in.end()));
  f.model();
  MedianFilter<T, N> filter(Box<N>(pos<N>(front), pos<N>(back)));
  f.whole(filter);
  c.outcome(f.expected);
}

// All windows and regions
template <typename T, typename TOut, Index N>
void regions(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  const Coord s = pickShape(c, dim, 1, dim == 1 ? c.tier(7, 9) : dim == 2 ? c.tier(4, 5) : dim == 3 ? c.tier(2, 3) : 2);
  Coord front, back;
  for (Index i = 0; i < dim; ++i) {
    front.push_back(dim > 3 && i > 1 ? i - 3 : c.range(dim == 1 ? -4 : dim == 2 ? -2 : -1, dim < 3 ? 1 : 0));
    back.push_back(front.back() + c.range(0, dim == 1 ? 5 : dim == 2 ? 3 : 1));
  }
  c.shard();
  const int method = c.pick(3);
  c.note("shape ", s, " window ", front, " ", back, " method ", method);
  Filter23<TOut, T, N> f {c, s, front, back, method};
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = T((i * 37 + 11) % 97);
  }
  f.model();
  MedianFilter<T, N> filter(Box<N>(pos<N>(front), pos<N>(back)));
  f.whole(filter);
  // Regions: all when few, those limited by the middle or the borders along each axis otherwise
  std::vector<std::vector<std::pair<Index, Index>>> spans;
  for (Index i = 0; i < dim; ++i) {
    spans.emplace_back();
    const bool all = dim == 1 || (dim < 4 && c.thorough());
    for (Index a = 0; a < s[i]; ++a) {
      for (Index b = a; b < s[i]; ++b) {
        if (all || (a == 0 && b == s[i] - 1) || (a == s[i] / 2 && b == a) || (a == 1 && b == s[i] - 1)) {
          spans.back().push_back({a, b});
        }
      }
    }
  }
  std::vector<std::size_t> index(dim, 0);
  for (bool done = false; !done;) {
    Coord a, b;
    for (Index i = 0; i < dim; ++i) {
      a.push_back(spans[i][index[i]].first);
      b.push_back(spans[i][index[i]].second);
    }
    f.region(filter, a, b);
    done = true;
    for (Index i = 0; i < dim; ++i) {
      if (++index[i] < spans[i].size()) {
        done = false;
        break;
      }
      index[i] = 0;
    }
  }
  // Empty region
  Coord a(dim, 0), b(dim, 0);
  b[0] = -1;
  f.region(filter, a, b);
  // Interior region without extrapolation
  Coord from, to;
  bool empty = false;
  for (Index i = 0; i < dim; ++i) {
    from.push_back(std::max(Index(0), -front[i]));
    to.push_back(std::min(s[i] - 1, s[i] - 1 - back[i]));
    empty = empty || to[i] < from[i];
  }
  if (!empty) {
    Raster<TOut, N> out(pos<N>(s));
    out.fill(TOut(77));
    filter.applyTo(f.in, out, Box<N>(pos<N>(from), pos<N>(to)));
    std::vector<TOut> result(f.expected.size(), TOut(77));
    for (const auto& p : boxPositions(from, to)) {
      result[offsetOf(s, p)] = f.expected[offsetOf(s, p)];
    }
    EXPECT_EQ(c, std::vector<TOut>(out.begin(), out.end()), result);
  }
  c.outcome(f.expected);
}

// Centered windows
template <typename T, Index N>
void radii(mc::Ctx& c) {
  const Coord s = pickShape(c, N, 1, N == 1 ? 7 : N == 2 ? 4 : 2);
  const bool byDefault = c.flip();
  const Index r = byDefault ? 1 : c.range(0, N == 3 ? 1 : 2);
  const int method = c.pick(3);
  c.note("shape ", s, " radius ", r, " method ", method);
  const Coord front(N, -r), back(N, r);
  Filter23<T, T, N> f {c, s, front, back, method};
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = T((i * 37 + 11) % 97);
  }
  f.model();
  MedianFilter<T, N> filter = byDefault ? MedianFilter<T, N>() : MedianFilter<T, N>(r);
  f.whole(filter);
  // The same filter again, with other contents
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = letter<T>(i * i + 1);
  }
  f.model();
  f.whole(filter);
  c.outcome(f.expected);
}

// Median of all sequences
template <typename T, typename TOut, typename TIterable>
void medians(mc::Ctx& c) {
  const Index n = c.range(1, c.tier(7, 8));
  std::vector<T> values;
  for (Index i = 0; i < n; ++i) {
    values.push_back(letter<T>(c.pick(c.tier(4, 5))));
  }
  c.note("values ", values);
  TIterable through(values.begin(), values.end());
  const auto m = MedianFilter<T, 1>::template median<TOut>(through);
  const TOut expected = median23<TOut>(values);
  EXPECT(c, m == expected, "median is", m, "instead of", expected);
  std::vector<T> after(through.begin(), through.end());
  std::sort(after.begin(), after.end());
  std::sort(values.begin(), values.end());
  EXPECT_EQ(c, after, values);
  c.step();
  c.outcome(std::vector<TOut> {m});
}

// Extremes, whose sum overflows, and integers which a double cannot represent
template <typename T>
struct Far23 {
  static std::vector<T> letters() {
    using L = std::numeric_limits<T>;
    if (std::is_floating_point<T>::value) {
      return {L::max(), T(L::max() / 2), L::lowest(), T(0)};
    }
    return {L::max(), T(L::max() - 1), T(L::max() / 2), L::min()};
  }
};
template <typename T>
T farMedian23(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  const auto n = v.size();
  return n % 2 == 1 ? v[n / 2] : T(((long double)v[n / 2 - 1] + (long double)v[n / 2]) / 2);
}
template <typename T>
void far(mc::Ctx& c) {
  const Index n = c.range(1, c.tier(5, 6));
  const Index back = c.range(0, 4);
  const Index front = -c.range(0, back);
  const int method = c.pick(2);
  c.shard();
  Raster<T, 1> in({n});
  for (auto& e : in) {
    e = c.of(Far23<T>::letters());
  }
  const T constant = Far23<T>::letters()[1];
  c.note("window ", front, " ", back, " method ", method, " values ", in);
  MedianFilter<T, 1> filter(Box<1>({front}, {back}));
  const auto out = method == 0 ? filter.apply(extrapolate(in, constant)) : filter.apply(extrapolate<NearestNeighbor>(in));
  for (Index i = 0; i < n; ++i) {
    std::vector<T> neighbors;
    for (Index j = i + front; j <= i + back; ++j) {
      neighbors.push_back(j >= 0 && j < n ? in[j] : method == 0 ? constant : in[j < 0 ? 0 : n - 1]);
    }
    const T expected = farMedian23(neighbors);
    EXPECT(c, out[i] == expected, "pixel", i, "is", out[i], "instead of", expected);
    c.step();
  }
  c.outcome(std::vector<long double>(out.begin(), out.end()));
}

// Large windows
template <typename T, Index N>
void large(mc::Ctx& c) {
  const std::vector<Coord> shapes[] = {{{5}, {97}, {300}}, {{3, 4}, {20, 11}}, {{4, 3, 5}}};
  const std::vector<std::pair<Coord, Coord>> windows[] = {
      {{{-32}, {32}}, {{-64}, {0}}, {{-64}, {64}}, {{-70}, {63}}, {{-1}, {255}}, {{3}, {260}}, {{-200}, {-70}}},
      {{{-4, -4}, {4, 4}}, {{-8, -8}, {8, 7}}, {{0, -2}, {32, 5}}, {{-1, -40}, {1, 3}}, {{-15, 3}, {16, 6}}},
      {{{-2, -2, -2}, {2, 2, 2}}, {{-1, 0, -4}, {3, 4, 1}}}};
  const Coord s = c.of(shapes[N - 1]);
  const auto window = c.of(windows[N - 1]);
  const int method = c.pick(3);
  c.shard();
  const Index slope = c.of({1, -3, 7919, 613, 31});
  c.note("shape ", s, " window ", window.first, " ", window.second, " method ", method, " slope ", slope);
  Filter23<T, T, N> f {c, s, window.first, window.second, method};
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = T((i * slope) % 1009);
  }
  f.model();
  MedianFilter<T, N> filter(Box<N>(pos<N>(window.first), pos<N>(window.second)));
  f.whole(filter);
  c.outcome(f.expected);
}

// Long axes
template <typename T, Index N>
void wide(mc::Ctx& c) {
  const Coord s = pickWideShape(c, N, {70001, 300});
  const int method = c.pick(3);
  const Coord front(N, c.range(-1, 0));
  const Coord back = plus(front, N == 1 ? 2 : 1);
  c.shard();
  c.note("shape ", s, " window ", front, " ", back, " method ", method);
  Filter23<T, T, N> f {c, s, front, back, method};
  for (Index i = 0; i < product(s); ++i) {
    f.in[i] = T((i * 613) % 1009);
  }
  f.model();
  MedianFilter<T, N> filter(Box<N>(pos<N>(front), pos<N>(back)));
  f.whole(filter);
  c.outcome(f.expected);
}

TINSTANCE(wide, int, 1);
TINSTANCE(wide, float, 2);
TINSTANCE(large, int, 1);
TINSTANCE(large, double, 2);
TINSTANCE(large, float, 3);
TINSTANCE(far, long);
TINSTANCE(far, int);
TINSTANCE(far, unsigned char);
TINSTANCE(far, double);
TINSTANCE(far, float);
TINSTANCE(contents, int, double, 1);
TINSTANCE(contents, unsigned char, unsigned char, 1);
TINSTANCE(contents, int, double, 2);
TINSTANCE(contents, float, float, -1);
TINSTANCE(regions, int, double, 1);
TINSTANCE(regions, int, int, 2);
TINSTANCE(regions, float, float, -1);
TINSTANCE(regions, double, float, 3);
TINSTANCE(regions, int, int, 4);
TINSTANCE(radii, int, 1);
TINSTANCE(radii, double, 2);
TINSTANCE(radii, int, 3);
TINSTANCE(medians, int, double, std::vector<int>);
TINSTANCE(medians, int, int, std::vector<int>);
TINSTANCE(medians, double, double, std::deque<double>);
TINSTANCE(medians, unsigned char, float, std::vector<unsigned char>);
// The other supported types
TINSTANCE(far, char);
TINSTANCE(far, signed char);
TINSTANCE(far, short);
TINSTANCE(far, unsigned short);
TINSTANCE(far, unsigned);
TINSTANCE(far, long long);
TINSTANCE(contents, signed char, signed char, 1);
TINSTANCE(contents, short, short, 1);
TINSTANCE(contents, unsigned, unsigned, 1);
TINSTANCE(contents, unsigned long, unsigned long, 1);
TINSTANCE(contents, long double, long double, 1);
TINSTANCE(contents, double, double, 1);
