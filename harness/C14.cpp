// C14: data distribution parameters, whatever the history of queries
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <algorithm>
using namespace Litl;

template <typename T>
struct Alpha14 {
  static std::vector<T> narrow() {
    return std::is_floating_point<T>::value ? std::vector<T> {T(1.5), T(-4), T(100)} :
        std::is_signed<T>::value            ? std::vector<T> {T(1), T(-4), T(100)} :
                                              std::vector<T> {T(1), T(4), T(100)};
  }
  static std::vector<T> wide() {
    auto v = narrow();
    v.push_back(T(7));
    v.push_back(T(8));
    return v;
  }
};

struct Model14 {
  std::vector<long double> sorted;
  long double mean() const {
    long double s = 0;
    for (auto v : sorted) {
      s += v;
    }
    return s / sorted.size();
  }
  long double sum() const {
    long double s = 0;
    for (auto v : sorted) {
      s += v;
    }
    return s;
  }
  template <typename T>
  std::enable_if_t<std::is_integral<T>::value, T> modularSum() const {
    unsigned long long s = 0;
    for (auto v : sorted) {
      s += (unsigned long long)(T)v;
    }
    return T(s);
  }
  template <typename T>
  std::enable_if_t<not std::is_integral<T>::value, T> modularSum() const {
    return T(sum());
  }
  long double quantile(double q) const {
    const long double n = (long double)q * (sorted.size() - 1);
    const std::size_t f = std::floor(n);
    if (f + 1 >= sorted.size()) {
      return sorted.back();
    }
    return sorted[f] + (sorted[f + 1] - sorted[f]) * (n - f);
  }
  long double variance(bool unbiased) const {
    const auto m = mean();
    long double s = 0;
    for (auto v : sorted) {
      s += (v - m) * (v - m);
    }
    return s / (sorted.size() - unbiased);
  }
  long double mad() const {
    const auto m = quantile(.5);
    Model14 d;
    for (auto v : sorted) {
      d.sorted.push_back(std::abs(v - m));
    }
    std::sort(d.sorted.begin(), d.sorted.end());
    return d.quantile(.5);
  }
};

template <typename T>
void close(mc::Ctx& c, T got, long double expected, long double scale, const char* what, bool weighted = false) {
  c.step();
  // Quantile levels, hence weights, are doubles
  const long double tol = 64 * std::max<long double>(std::numeric_limits<T>::epsilon(), weighted ? std::numeric_limits<double>::epsilon() : 0) * std::max<long double>(1, scale);
  EXPECT(c, std::abs((long double)got - expected) <= tol, what, "is", got, "instead of", expected);
}

// The error of the variance depends on the ratio of the largest value to the deviation, not on its square
template <typename T>
void closeVariance(mc::Ctx& c, T got, const Model14& m, bool unbiased) {
  c.step();
  const long double eps = std::numeric_limits<T>::epsilon();
  const long double n = m.sorted.size();
  const long double scale = std::max(std::abs(m.sorted.front()), std::abs(m.sorted.back()));
  const long double expected = m.variance(unbiased);
  const long double tol = 64 * n * eps * (expected + std::sqrt(expected) * scale) + std::pow(8 * n * eps * scale, 2);
  EXPECT(c, std::abs((long double)got - expected) <= tol, unbiased ? "variance is" : "biased variance is", got, "instead of", expected);
}

static const double Quantiles[] = {0, .5, 1, .25, 1. / 3, .9, .1};

enum Query { Sort, Min, Max, Sum, Nth, Mean, Median, Variance, BiasedVariance, Mad, Quantile, Histogram, QueryCount };

template <typename T>
void query(mc::Ctx& c, DataDistribution<T>& d, const Model14& m, int q, int arg) {
  const std::size_t n = m.sorted.size();
  const long double scale = std::max(std::abs(m.sorted.front()), std::abs(m.sorted.back()));
  switch (q) {
    case Sort:
      d.sort();
      break;
    case Min: {
      const T v = d.min();
      EXPECT(c, v == T(m.sorted.front()), "min is", v);
      break;
    }
    case Max: {
      const T v = d.max();
      EXPECT(c, v == T(m.sorted.back()), "max is", v);
      break;
    }
    case Sum: {
      if (std::is_integral<T>::value) {
        EXPECT(c, d.sum() == m.modularSum<T>(), "sum is", d.sum(), "instead of", m.modularSum<T>());
      } else {
        close(c, d.sum(), m.sum(), scale * n, "sum");
      }
      break;
    }
    case Nth: {
      const std::size_t k = arg % n;
      const T v = d.nth(k);
      EXPECT(c, v == T(m.sorted[k]), "nth", k, "is", v);
      break;
    }
    case Mean:
      close(c, d.mean(), m.mean(), scale, "mean");
      break;
    case Median:
      close(c, d.median(), m.quantile(.5), scale, "median");
      break;
    case Variance:
      if (n > 1) {
        closeVariance(c, d.variance(), m, true);
      }
      break;
    case BiasedVariance:
      closeVariance(c, d.variance(false), m, false);
      break;
    case Mad:
      close(c, d.mad(), m.mad(), scale, "median absolute deviation");
      break;
    case Quantile: {
      const double p = Quantiles[arg % 7];
      close(c, d.quantile(p), m.quantile(p), scale, ("quantile " + std::to_string(p)).c_str(), not std::is_same<T, float>::value);
      break;
    }
    default: {
      const std::vector<T> bins {T(m.sorted.front()), T(m.sorted.back() + 1)};
      const auto h = d.histogram(bins);
      EXPECT(c, h.size() == 1 && h[0] == n, "histogram", h);
    }
  }
  EXPECT(c, d.size() == n);
}

static const char* Names[] = {"sort", "min", "max", "sum", "nth", "mean", "median", "variance", "biased variance", "mad", "quantile", "histogram"};

template <typename T, typename D>
void history(mc::Ctx& c, D& d, const std::vector<T>& values, int depth) {
  Model14 m;
  m.sorted.assign(values.begin(), values.end());
  std::sort(m.sorted.begin(), m.sorted.end());
  for (int i = 0; i < depth; ++i) {
    const int q = c.pick(QueryCount);
    const int arg = q == Nth ? c.pick(int(values.size())) : q == Quantile ? 3 + c.pick(2) : 0;
    c.note(Names[q], " ", arg);
    query(c, d, m, q, arg);
  }
  // Every query, from the state reached
  for (int q = QueryCount - 1; q > 0; --q) {
    const int args = q == Nth ? int(values.size()) : q == Quantile ? 7 : 1;
    for (int arg = args - 1; arg >= 0; --arg) {
      query(c, d, m, q, arg);
    }
  }
  c.outcome(std::vector<double>(m.sorted.begin(), m.sorted.end()));
}

template <typename T>
void narrow(mc::Ctx& c) {
  const auto values = c.word(c.range(1, 4), Alpha14<T>::narrow());
  c.shard();
  c.note("values ", values);
  DataDistribution<T> d(values);
  history(c, d, values, c.tier(2, 3));
}

template <typename T>
void broad(mc::Ctx& c) {
  const auto values = c.word(c.range(1, c.tier(5, 6)), Alpha14<T>::wide());
  c.shard();
  c.note("values ", values);
  Raster<T, 1> r({Index(values.size())});
  std::copy(values.begin(), values.end(), r.begin());
  auto d = r.distribution();
  r.fill(T(42)); // No effect
  history(c, d, values, c.tier(values.size() > 4 ? 0 : 1, values.size() > 5 ? 0 : 1));
}

// Two distributions do not influence each other; copies keep the values
template <typename T>
void copies(mc::Ctx& c) {
  const auto values = c.word(c.range(1, 3), Alpha14<T>::narrow());
  c.shard();
  c.note("values ", values);
  auto moved = values;
  DataDistribution<T> a(std::move(moved));
  Model14 m;
  m.sorted.assign(values.begin(), values.end());
  std::sort(m.sorted.begin(), m.sorted.end());
  const int q = c.pick(QueryCount);
  query(c, a, m, q, 1);
  DataDistribution<T> b = a;
  const int r = c.pick(QueryCount);
  query(c, b, m, r, 0);
  history(c, a, values, 0);
  history(c, b, values, 1);
}

// Larger: all permutations
template <typename T>
void permutations(mc::Ctx& c) {
  const std::size_t n = c.range(1, c.tier(6, 7));
  std::vector<T> all;
  for (std::size_t i = 0; i < n; ++i) {
    all.push_back(T(1 + i * i));
  }
  std::vector<T> values;
  while (!all.empty()) {
    const int k = c.pick(int(all.size()));
    values.push_back(all[k]);
    all.erase(all.begin() + k);
    if (values.size() == 2) {
      c.shard();
    }
  }
  c.note("values ", values);
  Sequence<T> s(values);
  auto d = s.distribution();
  history(c, d, values, c.tier(0, 1));
}

// Enough elements for nth_element() to leave some of them unsorted: all permutations and all histories of three ranks
SCENARIO(ranks) {
  const std::size_t n = c.tier(8, 9);
  std::vector<int> all;
  for (std::size_t i = 0; i < n; ++i) {
    all.push_back(3 * i + 1);
  }
  std::vector<int> values;
  while (!all.empty()) {
    const int k = c.pick(int(all.size()));
    values.push_back(all[k]);
    all.erase(all.begin() + k);
    if (values.size() == 3) {
      c.shard();
    }
  }
  c.note("values ", values);
  const DataDistribution<int> initial(values);
  for (std::size_t i = 0; i < n; ++i) {
    auto first = initial;
    EXPECT(c, first.nth(i) == int(3 * i + 1), "nth", i);
    for (std::size_t j = 0; j < n; ++j) {
      auto second = first;
      EXPECT(c, second.nth(j) == int(3 * j + 1), "nth", i, j);
      for (std::size_t k = 0; k < n; ++k) {
        auto third = second;
        EXPECT(c, third.nth(k) == int(3 * k + 1), "nth", i, j, k);
        c.step();
      }
    }
  }
  c.outcome(values[0]);
}

// Every size, sorted, reversed, shuffled, constant and with an outlier, after one query
template <typename T>
void sizes(mc::Ctx& c) {
  const std::size_t n = 1 + pickDenseSize(c, 70, 550);
  const int pattern = c.pick(5);
  c.shard();
  std::vector<T> values(n);
  for (std::size_t i = 0; i < n; ++i) {
    values[i] = pattern == 0 ? T(3 * i + 1) : pattern == 1 ? T(5 * (n - i)) : pattern == 2 ? T(i * 37 % 101) : T(12);
  }
  if (pattern == 4) {
    values[n / 2] = T(1000);
    values[n - 1] = T(2);
  }
  c.note("size ", n, " pattern ", pattern);
  DataDistribution<T> d(values);
  Model14 m;
  m.sorted.assign(values.begin(), values.end());
  std::sort(m.sorted.begin(), m.sorted.end());
  query(c, d, m, c.pick(QueryCount), int(n / 3));
  for (int q = QueryCount - 1; q > 0; --q) {
    if (q == Nth) {
      for (auto i : remarkable(n, 20)) {
        query(c, d, m, q, int(i));
      }
    } else {
      for (int arg = 0; arg < (q == Quantile ? 7 : 1); ++arg) {
        query(c, d, m, q, arg);
      }
    }
  }
  c.outcome(n);
}

// Small deviations far from zero
template <typename T>
struct Far14 {
  static std::vector<T> offsets() {
    return {T(1L << 40), T((1L << 62) + 5), T(-(1L << 62) + 3)};
  }
};
template <>
struct Far14<int> {
  static std::vector<int> offsets() {
    return {1 << 28, -(1 << 28)};
  }
};
template <>
struct Far14<double> {
  static std::vector<double> offsets() {
    return {1e8, -1e8, 1e12, 4e15};
  }
};
template <>
struct Far14<float> {
  static std::vector<float> offsets() {
    return {4096.f, -4096.f, 1e6f};
  }
};
template <typename T>
void far(mc::Ctx& c) {
  const T offset = c.of(Far14<T>::offsets());
  const std::size_t n = c.range(1, std::is_same<T, int>::value || std::abs((double)offset) < 1e15 ? c.tier(5, 6) : 1); // No overflow of the sum
  const auto small = c.word(n, std::vector<int> {0, 1, 3, 7});
  c.shard();
  std::vector<T> values;
  for (auto v : small) {
    values.push_back(offset + T(v));
  }
  c.note("values ", values);
  DataDistribution<T> d(values);
  history(c, d, values, n > 4 ? 0 : 1);
}

// Order statistics of extreme values, whose sum or difference would overflow
template <typename T>
void extremes(mc::Ctx& c) {
  const T lowest = std::numeric_limits<T>::lowest();
  const T max = std::numeric_limits<T>::max();
  const auto values = c.word(c.range(1, c.tier(4, 5)), std::vector<T> {lowest, T(lowest / 2), T(0), T(1), T(max / 2), max});
  c.shard();
  c.note("values ", values);
  auto sorted = values;
  std::sort(sorted.begin(), sorted.end());
  DataDistribution<T> d(values);
  const std::size_t n = values.size();
  Model14 m;
  m.sorted.assign(sorted.begin(), sorted.end());
  const long double scale = std::max(std::abs(m.sorted.front()), std::abs(m.sorted.back()));
  for (double p : {.5, .25, .9, 0., 1.}) {
    close(c, d.quantile(p), m.quantile(p), scale, "quantile");
  }
  close(c, d.median(), m.quantile(.5), scale, "median");
  for (std::size_t k = 0; k < n; ++k) {
    EXPECT(c, T(d.nth(n - 1 - k)) == sorted[n - 1 - k], "nth", n - 1 - k, "is", d.nth(n - 1 - k));
  }
  EXPECT(c, d.min() == sorted.front() && d.max() == sorted.back(), "extrema are", d.min(), d.max());
  const auto h = d.histogram(std::vector<T> {lowest, T(0), max});
  const std::size_t negative = std::lower_bound(sorted.begin(), sorted.end(), T(0)) - sorted.begin();
  if (std::is_signed<T>::value) {
    EXPECT(c, h.size() == 2 && h[0] == negative && h[1] == n - negative, "histogram", h);
  }
  c.outcome(n);
}

TINSTANCE(far, double);
TINSTANCE(far, float);
TINSTANCE(far, int);
TINSTANCE(far, long);
TINSTANCE(extremes, double);
TINSTANCE(extremes, float);
TINSTANCE(extremes, unsigned long);
TINSTANCE(extremes, unsigned char);
TINSTANCE(extremes, unsigned short);
TINSTANCE(narrow, double);
TINSTANCE(narrow, int);
TINSTANCE(narrow, unsigned);
TINSTANCE(broad, float);
TINSTANCE(broad, long);
TINSTANCE(broad, unsigned short);
TINSTANCE(broad, unsigned char);
TINSTANCE(broad, double);
TINSTANCE(copies, int);
TINSTANCE(copies, double);
TINSTANCE(permutations, double);
TINSTANCE(permutations, int);
TINSTANCE(sizes, int);
TINSTANCE(sizes, double);
TINSTANCE(sizes, long);
// The other supported types
TINSTANCE(narrow, char);
TINSTANCE(narrow, signed char);
TINSTANCE(narrow, unsigned char);
TINSTANCE(narrow, short);
TINSTANCE(narrow, unsigned short);
TINSTANCE(narrow, unsigned long);
TINSTANCE(narrow, long long);
TINSTANCE(narrow, unsigned long long);
TINSTANCE(narrow, float);
TINSTANCE(narrow, long double);
TINSTANCE(extremes, unsigned);
TINSTANCE(extremes, unsigned long long);
