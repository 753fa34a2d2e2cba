// C15: histograms
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <list>
using namespace Litl;

template <typename T>
struct Alpha15 {
  static std::vector<T> values() { // Also used as edges
    return std::is_floating_point<T>::value ? std::vector<T> {T(-2), T(-.5), T(0), T(1.25), T(3), T(8)} :
        std::is_signed<T>::value            ? std::vector<T> {T(-2), T(-1), T(0), T(2), T(3), T(8)} :
                                              std::vector<T> {T(0), T(1), T(2), T(4), T(5), T(8)};
  }
};

template <typename T, typename E>
std::vector<std::size_t> model15(const std::vector<T>& values, const std::vector<E>& edges) {
  std::vector<std::size_t> out(edges.size() - 1, 0);
  for (auto v : values) {
    for (std::size_t i = 0; i + 1 < edges.size(); ++i) {
      const bool last = i + 2 == edges.size();
      if ((long double)v >= (long double)edges[i] &&
          ((long double)v < (long double)edges[i + 1] || (last && (long double)v == (long double)edges[i + 1]))) {
        ++out[i];
      }
    }
  }
  return out;
}

// Increasing subsets of the alphabet, possibly shifted by half for finer edges than values
template <typename E>
std::vector<E> pickEdges(mc::Ctx& c, const std::vector<E>& alphabet, std::size_t max) {
  std::vector<E> edges;
  for (auto e : alphabet) {
    if (edges.size() < max && c.flip()) {
      edges.push_back(e);
    }
  }
  if (edges.empty()) {
    c.prune();
  }
  return edges;
}

template <typename T, typename E>
void counts(mc::Ctx& c) {
  const auto values = c.word(c.range(0, c.tier(4, 5)), Alpha15<T>::values());
  c.shard();
  const auto edges = pickEdges(c, Alpha15<E>::values(), c.tier(4, 6));
  c.note("values ", values, " edges ", edges);
  DataDistribution<T> d(values);
  const auto h = d.histogram(edges);
  EXPECT_EQ(c, h, model15(values, edges));
  c.step();
  c.outcome(h);
}

// Histograms in any history of queries and of other histograms; any kind of bins
template <typename T>
void histories(mc::Ctx& c) {
  const auto alphabet = Alpha15<T>::values();
  const auto values = c.word(c.range(1, 3), alphabet);
  c.shard();
  c.note("values ", values);
  Sequence<T> s(values);
  auto d = s.distribution();
  s.fill(T(1));
  const int depth = c.tier(2, 3);
  for (int i = 0; i < depth; ++i) {
    const int q = c.pick(9);
    c.note("query ", q);
    switch (q) {
      case 0:
        d.sort();
        break;
      case 1:
        d.nth(c.pick(int(values.size())));
        break;
      case 2:
        d.median();
        break;
      case 3:
        d.mad();
        break;
      case 4:
        d.mean();
        break;
      case 5: {
        const std::vector<T> edges {alphabet[0], alphabet[2], alphabet[4]};
        EXPECT_EQ(c, d.histogram(edges), model15(values, edges));
        break;
      }
      case 6: {
        const std::vector<T> edges {alphabet[1], alphabet[3]};
        EXPECT_EQ(c, d.histogram(std::list<T>(edges.begin(), edges.end())), model15(values, edges));
        break;
      }
      case 7: {
        const std::vector<T> edges {alphabet[3], alphabet[5]};
        EXPECT_EQ(c, d.histogram(Sequence<T>(edges)), model15(values, edges));
        break;
      }
      case 8: {
        const std::vector<double> edges {double(alphabet[0]) + .5, double(alphabet[2]) + .5, double(alphabet[4]) + .5};
        EXPECT_EQ(c, d.histogram(edges), model15(values, edges));
        break;
      }
    }
    c.step();
  }
  auto sorted = values;
  std::sort(sorted.begin(), sorted.end());
  EXPECT(c, d.min() == sorted.front() && d.max() == sorted.back() && d.size() == values.size());
}

// Many bins, each value position; repeated last edge
template <typename T>
void many(mc::Ctx& c) {
  const int n = c.range(1, c.tier(7, 10));
  const int copies = c.range(1, 3);
  c.shard();
  std::vector<T> edges;
  for (int i = 0; i <= n; ++i) {
    edges.push_back(T(10 + 2 * i));
  }
  std::vector<T> values;
  for (int i = 0; i < 2; ++i) {
    const T v = T(9 + c.pick(2 * n + 4));
    for (int k = 0; k < copies; ++k) {
      values.push_back(v);
    }
  }
  c.note("values ", values, " edges ", edges);
  DataDistribution<T> d(values);
  const auto h = d.histogram(edges);
  EXPECT_EQ(c, h, model15(values, edges));
  c.step();
  c.outcome(h);
}

// Every number of values and bins
template <typename T>
void sizes(mc::Ctx& c) {
  const std::size_t n = pickDenseSize(c, 70, 550);
  const std::size_t bins = c.of<std::size_t>({1, 2, 3, 7, 8, 9, 16, 31, 64, 100, 255, 256, 257, 300, 1000, 65535, 65536, 65537, 70001});
  const int width = c.of({1, 2, 5});
  c.shard();
  std::vector<T> edges, values;
  for (std::size_t i = 0; i <= bins; ++i) {
    edges.push_back(T(10 + i * width));
  }
  for (std::size_t i = 0; i < n; ++i) {
    values.push_back(T(8 + (i * 37 + i / 11) % (bins * width + 5)));
  }
  c.note(n, " values ", bins, " bins of width ", width);
  std::vector<std::size_t> expected(bins, 0);
  for (auto v : values) {
    if (v >= edges.front() && v <= edges.back()) {
      ++expected[std::min(std::size_t(v - 10) / width, bins - 1)];
    }
  }
  DataDistribution<T> d(values);
  EXPECT_EQ(c, d.histogram(edges), expected);
  const std::vector<T> reversed(values.rbegin(), values.rend());
  DataDistribution<T> r(reversed);
  EXPECT_EQ(c, r.histogram(edges), expected);
  c.step(2);
  c.outcome(n);
}

// Extreme and close values; open-ended bins
template <typename T>
struct Extreme15 {
  static std::vector<T> values() {
    using L = std::numeric_limits<T>;
    const T mid = T(L::max() / 2 + 1);
    return {L::min(), T(L::min() + 1), T(mid - 1), mid, T(mid + 1), T(L::max() - 1), L::max()};
  }
};
template <>
struct Extreme15<double> {
  static std::vector<double> values() {
    using L = std::numeric_limits<double>;
    return {-L::infinity(), L::lowest(), -L::denorm_min(), 0., 1., 1. + L::epsilon(), L::infinity()};
  }
};
template <>
struct Extreme15<float> {
  static std::vector<float> values() {
    using L = std::numeric_limits<float>;
    return {-L::infinity(), -1.f, L::min(), 16777215.f, 16777216.f, L::max(), L::infinity()};
  }
};
template <typename T>
void extremes(mc::Ctx& c) {
  const auto values = c.word(c.range(0, c.tier(3, 4)), Extreme15<T>::values());
  c.shard();
  const auto edges = pickEdges(c, Extreme15<T>::values(), 7);
  c.note("values ", values, " edges ", edges);
  DataDistribution<T> d(values);
  const auto h = d.histogram(edges);
  EXPECT_EQ(c, h, model15(values, edges));
  c.step();
  c.outcome(h);
}

TINSTANCE(extremes, int);
TINSTANCE(extremes, unsigned);
TINSTANCE(extremes, long);
TINSTANCE(extremes, unsigned long);
TINSTANCE(extremes, signed char);
TINSTANCE(extremes, unsigned char);
TINSTANCE(extremes, double);
TINSTANCE(extremes, float);
TINSTANCE(counts, int, int);
TINSTANCE(counts, double, double);
TINSTANCE(counts, int, double);
TINSTANCE(counts, unsigned char, unsigned char);
TINSTANCE(counts, float, int);
TINSTANCE(histories, int);
TINSTANCE(histories, double);
TINSTANCE(many, int);
TINSTANCE(many, unsigned short);
TINSTANCE(many, float);
TINSTANCE(sizes, int);
TINSTANCE(sizes, double);
// The other supported types
TINSTANCE(extremes, char);
TINSTANCE(extremes, short);
TINSTANCE(extremes, unsigned short);
TINSTANCE(extremes, long long);
TINSTANCE(extremes, unsigned long long);
TINSTANCE(extremes, long double);
TINSTANCE(counts, char, char);
TINSTANCE(counts, signed char, signed char);
TINSTANCE(counts, short, short);
TINSTANCE(counts, unsigned short, unsigned short);
TINSTANCE(counts, unsigned, unsigned);
TINSTANCE(counts, long, long);
TINSTANCE(counts, unsigned long, unsigned long);
TINSTANCE(counts, long long, long long);
TINSTANCE(counts, unsigned long long, unsigned long long);
TINSTANCE(counts, float, float);
TINSTANCE(counts, long double, long double);
