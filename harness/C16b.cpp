// C16: long term frequencies of random noise generators
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <cmath>
#include <functional>
using namespace Litl;

namespace {

static const std::size_t Seeds[] = {0, 1, 42, 624, 4294967295ul, 123456789012345ul, 2, 3};

// Each class of values occurs with the given probability, give or take 6 standard deviations
template <typename T>
void frequencies(mc::Ctx& c, long n, std::function<T(long)> draw, const std::vector<std::pair<double, std::function<bool(T)>>>& classes) {
  std::vector<long> counts(classes.size(), 0);
  for (long i = 0; i < n; ++i) {
    const T x = draw(i);
    for (std::size_t k = 0; k < classes.size(); ++k) {
      counts[k] += classes[k].second(x);
    }
  }
  for (std::size_t k = 0; k < classes.size(); ++k) {
    const double p = classes[k].first;
    EXPECT(c, std::abs(counts[k] - n * p) <= 6 * std::sqrt(n * p * (1 - p)) + 1e-6 * n + 1, "class", k, "of probability", p, "occurs", counts[k], "times out of", n);
    c.step();
  }
  c.outcome(counts);
}

template <typename T>
using Classes16 = std::vector<std::pair<double, std::function<bool(T)>>>;

// Three ways of drawing noise, with a null, constant or varying input: the noise alone is returned
template <typename T, typename TNoise>
std::function<T(long)> additive16(TNoise noise, int form) {
  return [=](long i) mutable -> T {
    const T in = form == 2 ? T(i % 7) : T(0);
    return form == 0 ? noise() : T(noise(in) - in);
  };
}

template <typename T>
std::enable_if_t<std::is_integral<T>::value, std::vector<std::pair<T, T>>> bounds16() {
  return {{T(0), T(1)}, {T(5), T(5)}, {T(2), T(7)}, {T(10), T(109)}};
}
template <typename T>
std::enable_if_t<!std::is_integral<T>::value, std::vector<std::pair<T, T>>> bounds16() {
  return {{T(0), T(1)}, {T(-1), T(1)}, {T(2), T(2.5)}, {T(-1000), T(1000)}};
}

template <typename T>
void uniformFrequencies(mc::Ctx& c) {
  const auto bounds = c.of(bounds16<T>());
  const std::size_t seed = Seeds[c.pick(c.tier(4, 8))];
  const int form = c.pick(3);
  c.shard();
  c.note("uniform in ", bounds.first, " ", bounds.second, " seed ", seed, " form ", form);
  Classes16<T> classes;
  const double lo = bounds.first;
  const double span = std::is_integral<T>::value ? double(bounds.second) - lo + 1 : double(bounds.second) - lo;
  const int bins = std::is_integral<T>::value ? int(span) : 10;
  for (int i = 0; i < bins; ++i) {
    const double from = lo + span * i / bins, to = lo + span * (i + 1) / bins;
    classes.push_back({1. / bins, [=](T x) {
      return x >= from && x < to;
    }});
  }
  if (form == 2 && !std::is_integral<T>::value) { // Roundoff at the limits
    classes = Classes16<T> {{.5, [=](T x) {
      return x < lo + span / 2;
    }}};
  }
  frequencies<T>(c, 20000, additive16<T>(UniformNoise<T>(bounds.first, bounds.second, seed), form), classes);
}

template <typename T>
void gaussianFrequencies(mc::Ctx& c) {
  const T mean = T(c.of({-3, 0, 10}));
  const T stdev = T(c.of({1, 2, 20}));
  const std::size_t seed = Seeds[c.pick(c.tier(4, 8))];
  const int form = c.pick(3);
  c.shard();
  c.note("gaussian ", mean, " ", stdev, " seed ", seed, " form ", form);
  Classes16<T> classes;
  auto below = [=](double x) { // Probability to be lower than x
    return .5 * std::erfc((double(mean) - x) / double(stdev) / std::sqrt(2));
  };
  if (std::is_integral<T>::value && form == 0) { // Truncated towards 0
    for (int k = -20; k <= 20; ++k) {
      classes.push_back({below(k > -1 ? k + 1 : k) - below(k < 1 ? k - 1 : k), [=](T x) {
        return x == T(k);
      }});
    }
  } else if (!std::is_integral<T>::value) {
    for (double z : {-3., -2., -1., -.5, 0., .3, .5, 1., 1.5, 2., 2.5, 3.}) {
      const double limit = double(mean) + z * double(stdev);
      classes.push_back({below(limit), [=](T x) {
        return double(x) < limit;
      }});
    }
  }
  frequencies<T>(c, 20000, additive16<T>(GaussianNoise<T>(mean, stdev, seed), form), classes);
}

// Both parts of complex noise, which are independent
SCENARIO(complexes) {
  using T = std::complex<double>;
  const T mean(c.of({0., 5.}), c.of({0., -20.}));
  const T stdev(c.of({1., 10.}), c.of({1., 3.}));
  const std::size_t seed = Seeds[c.pick(8)];
  const int form = c.pick(3);
  const bool flat = c.flip();
  c.shard();
  c.note("complex ", mean, " ", stdev, " seed ", seed, " form ", form, flat ? " uniform" : " gaussian");
  Classes16<T> classes;
  auto below = [=](double z) {
    return flat ? (z + 1) / 2 : .5 * std::erfc(-z / std::sqrt(2));
  };
  for (double z : {-.9, -.5, 0., .3, .9}) {
    const T limit(mean.real() + z * stdev.real(), mean.imag() + z * stdev.imag());
    classes.push_back({below(z), [=](T x) {
      return x.real() < limit.real();
    }});
    classes.push_back({below(z), [=](T x) {
      return x.imag() < limit.imag();
    }});
    classes.push_back({below(z) * below(z), [=](T x) {
      return x.real() < limit.real() && x.imag() < limit.imag();
    }});
  }
  frequencies<T>(c, 20000, flat ? additive16<T>(UniformNoise<T>(mean - stdev, mean + stdev, seed), form) : additive16<T>(GaussianNoise<T>(mean, stdev, seed), form), classes);
}

// Classes of Poisson values: each one around the mean
template <typename T>
Classes16<T> poisson16(double mean) {
  Classes16<T> out;
  const double sigma = std::sqrt(mean);
  for (long k = long(std::max(0., mean - 5 * sigma - 2)); k <= long(mean + 5 * sigma + 2); ++k) {
    out.push_back({mean == 0 ? double(k == 0) : std::exp(k * std::log(mean) - mean - std::lgamma(k + 1.)), [=](T x) {
      return x == T(k);
    }});
  }
  return out;
}

template <typename T>
void poissonFrequencies(mc::Ctx& c) {
  const T mean = c.of(std::is_integral<T>::value ? std::vector<T> {T(1), T(2), T(7), T(20), T(100)} : std::vector<T> {T(.5), T(1), T(2.5), T(7), T(20), T(100.25)});
  const std::size_t seed = Seeds[c.pick(c.tier(4, 8))];
  const int form = c.pick(4);
  const bool stable = c.flip();
  c.shard();
  c.note("poisson ", mean, " seed ", seed, " form ", form, stable ? " stable" : "");
  const auto classes = poisson16<T>(double(mean));
  auto run = [&](auto noise) {
    switch (form) {
      case 0: // Generation
        return frequencies<T>(c, 10000, [=](long) mutable -> T {
          return noise();
        }, classes);
      case 1: // Noise with another mean than that of the generator
        return frequencies<T>(c, 10000, [=](long) mutable -> T {
          return noise(mean);
        }, classes);
      case 2: // Interleaved with others
        return frequencies<T>(c, 10000, [=](long i) mutable -> T {
          noise(T(i % 50));
          return noise(mean);
        }, classes);
      default: // Interleaved generation
        return frequencies<T>(c, 10000, [=](long i) mutable -> T {
          noise(T(i % 50));
          return noise();
        }, classes);
    }
  };
  const T other = form == 0 || form == 3 ? mean : T(3);
  if (stable) {
    run(StablePoissonNoise<T>(other, seed));
  } else {
    run(PoissonNoise<T>(other, seed));
  }
}

template <typename T>
void impulseFrequencies(mc::Ctx& c) {
  const std::vector<double> probabilities {0, .1, .25, .3, .5, 1, 2};
  const int n = c.range(1, 3);
  const auto p = c.word(n, probabilities);
  const std::size_t seed = Seeds[c.pick(c.tier(2, 8))];
  const int form = c.pick(3);
  c.shard();
  c.note("impulses of probabilities ", p, " seed ", seed, " form ", form);
  const std::vector<T> values {T(30), T(10), T(20)}; // Not in the order of the map
  std::map<T, double> m;
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    m[values[i]] = p[i];
    sum += p[i];
  }
  const double total = std::max(1., sum);
  Classes16<T> classes;
  for (int i = 0; i < n; ++i) {
    const T v = values[i];
    classes.push_back({p[i] / total, [=](T x) {
      return x == v;
    }});
  }
  const T base = form == 0 ? T(0) : T(5);
  classes.push_back({std::max(0., 1 - sum / total), [=](T x) {
    return x == base || (form == 2 && x < T(5));
  }});
  auto noise = n == 1 && form == 1 ? ImpulseNoise<T>(values[0], p[0], seed) :
      n == 2 && form == 1          ? ImpulseNoise<T>::saltAndPepper(p[0], p[1], values[0], values[1], seed) :
                                     ImpulseNoise<T>(m, seed);
  frequencies<T>(c, 10000, [=](long i) mutable -> T {
    return form == 0 ? noise() : noise(form == 1 ? T(5) : T(i % 5));
  }, classes);
}

// Small probabilities are not rounded: the input, or an impulse, occurs rarely but does
SCENARIO(rareImpulses) {
  const double rare = c.of(std::vector<double> {2e-3, 5e-4, 1e-4});
  const int form = c.pick(4);
  const std::size_t seed = Seeds[c.pick(c.tier(2, 8))];
  c.shard();
  c.note("rare probability ", rare, " form ", form, " seed ", seed);
  std::map<int, double> m;
  Classes16<int> classes;
  const auto is = [](int v) {
    return [=](int x) {
      return x == v;
    };
  };
  if (form == 0) { // The input is rare
    m = {{10, 1 - rare}};
    classes = {{1 - rare, is(10)}, {rare, is(5)}};
  } else if (form == 1) {
    m = {{10, .5}, {20, .5 - rare}};
    classes = {{.5, is(10)}, {.5 - rare, is(20)}, {rare, is(5)}};
  } else if (form == 2) { // One of the impulses is rare
    m = {{10, rare}, {20, .5}};
    classes = {{rare, is(10)}, {.5, is(20)}, {.5 - rare, is(5)}};
  } else { // Sum slightly above 1
    m = {{10, rare}, {20, 1}};
    classes = {{rare / (1 + rare), is(10)}, {1 / (1 + rare), is(20)}, {0, is(5)}};
  }
  ImpulseNoise<int> noise(m, seed);
  frequencies<int>(c, 1000000, [=](long) mutable {
    return noise(5);
  }, classes);
}

// More values than a byte can count
SCENARIO(manyImpulses) {
  const int n = c.of({100, 255, 256, 257, 300, 1000});
  const double total = c.of(std::vector<double> {1., .5});
  const int heavy = c.of({0, n / 2, n - 1}); // More probable
  const std::size_t seed = Seeds[c.pick(c.tier(2, 8))];
  c.shard();
  c.note(n, " impulses of total probability ", total, ", more often ", heavy, " seed ", seed);
  std::map<int, double> m;
  for (int i = 0; i < n; ++i) {
    m[3 * i + 1] = total * (i == heavy ? .5 : .5 / (n - 1));
  }
  Classes16<int> classes;
  classes.push_back({total * .5, [=](int x) {
    return x == 3 * heavy + 1;
  }});
  for (int part = 0; part < 4; ++part) {
    const int begin = n * part / 4, end = n * (part + 1) / 4;
    const int count = end - begin - (heavy >= begin && heavy < end);
    classes.push_back({total * .5 * count / (n - 1), [=](int x) {
      return x % 3 == 1 && x / 3 >= begin && x / 3 < end && x / 3 != heavy;
    }});
  }
  if (total < 1) {
    classes.push_back({1 - total, [=](int x) {
      return x == -5;
    }});
  }
  ImpulseNoise<int> noise(m, seed);
  frequencies<int>(c, 20000, [=](long) mutable {
    return noise(-5);
  }, classes);
}

TINSTANCE(uniformFrequencies, int);
TINSTANCE(uniformFrequencies, short);
TINSTANCE(uniformFrequencies, unsigned long);
TINSTANCE(uniformFrequencies, float);
TINSTANCE(uniformFrequencies, double);
TINSTANCE(gaussianFrequencies, int);
TINSTANCE(gaussianFrequencies, float);
TINSTANCE(gaussianFrequencies, double);
TINSTANCE(poissonFrequencies, int);
TINSTANCE(poissonFrequencies, unsigned short);
TINSTANCE(poissonFrequencies, long);
TINSTANCE(poissonFrequencies, double);
TINSTANCE(impulseFrequencies, int);
TINSTANCE(impulseFrequencies, double);
TINSTANCE(impulseFrequencies, unsigned char);

} // namespace
