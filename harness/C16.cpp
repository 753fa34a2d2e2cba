// C16: random noise generators
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "util.hpp"
#include <set>
using namespace Litl;

static std::int64_t clock16 = 1700000000000000000; // Nanoseconds

// Replace those of the standard library: time always passes, such that nothing seeded may depend on it
static std::int64_t tick16() {
  return clock16 += 1234567891;
}
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(tick16()));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(tick16()));
}
} // namespace _V2
} // namespace chrono
} // namespace std

static const std::size_t Seeds[] = {0, 1, 2, 3, 42, 624, 4294967295ul, 123456789012345ul};

template <typename T>
struct Noise16 {
  static constexpr bool Complex = false;
  static bool between(T v, T lo, T hi) {
    return v >= lo && v <= hi;
  }
};
template <typename S>
struct Noise16<std::complex<S>> {
  using T = std::complex<S>;
  static bool between(T v, T lo, T hi) {
    return v.real() >= lo.real() && v.real() <= hi.real() && v.imag() >= lo.imag() && v.imag() <= hi.imag();
  }
};

template <typename T>
std::vector<T> inputs() {
  return {T(0), T(1), T(7), T(100)};
}

template <typename T>
struct Bounds16 {
  std::vector<std::pair<T, T>> bounds;
};
template <typename T>
std::enable_if_t<!std::is_integral<T>::value, std::vector<std::pair<T, T>>> bounds16() {
  return {{T(0), T(1)}, {T(-1), T(1)}, {T(2), T(2.5)}, {Limits<T>::halfMin(), Limits<T>::halfMax()}, {T(-1000), T(-999)}};
}
template <typename T>
std::enable_if_t<std::is_integral<T>::value, std::vector<std::pair<T, T>>> bounds16() {
  return {{T(0), T(1)}, {T(5), T(5)}, {T(2), T(7)}, {Limits<T>::halfMin(), Limits<T>::halfMax()}, {Limits<T>::min(), Limits<T>::max()}};
}

// Any history of generations and applications
// Additive noises: every application adds the value that generation would have produced
template <typename T, typename TMake>
void additive(mc::Ctx& c, TMake&& make, int length, bool bounded, T lo, T hi) {
  auto ref = make();
  auto tested = make();
  const auto ins = inputs<T>();
  for (int i = 0; i < length; ++i) {
    const T v = ref();
    if (bounded) {
      EXPECT(c, Noise16<T>::between(v, lo, hi), "value", v, "not in", lo, hi);
    }
    const int k = c.pick(4);
    if (k == 0) {
      c.note("generate");
      const T got = tested();
      EXPECT(c, mc::same(got, v), "generated", got, "instead of", v);
    } else if (k == 3) { // Continue with a copy
      c.note("copy");
      auto copy = tested;
      const T a = tested();
      const T b = copy();
      EXPECT(c, mc::same(a, v) && mc::same(b, v), "copy generated", b, "original", a, "instead of", v);
      tested = copy;
    } else {
      const T in = ins[k == 1 ? 2 : 3];
      c.note("apply to ", in);
      const T got = tested(in);
      const T expected = in + v;
      EXPECT(c, mc::same(got, expected), "noised", in, "is", got, "instead of", expected);
    }
    c.step();
    c.outcome(v);
  }
}

template <typename T>
void uniform(mc::Ctx& c) {
  const auto bounds = c.of(bounds16<T>());
  const std::size_t seed = Seeds[c.pick(8)];
  c.shard();
  c.note("uniform ", bounds.first, " ", bounds.second, " seed ", seed);
  additive<T>(
      c,
      [=]() {
        return UniformNoise<T>(bounds.first, bounds.second, seed);
      },
      c.tier(4, 7),
      true,
      bounds.first,
      bounds.second);
}

template <typename T>
void gaussian(mc::Ctx& c) {
  const T mean = c.of({T(0), T(10), T(3)});
  const T stdev = c.of({T(1), TypeTraits<T>::fromScalar(20)});
  const std::size_t seed = Seeds[c.pick(8)];
  c.shard();
  c.note("gaussian ", mean, " ", stdev, " seed ", seed);
  if (stdev == T(1) && !std::is_integral<T>::value && TypeTraits<T>::fromScalar(1) != T(1)) {
    c.prune(); // Null standard deviation of the imaginary part
  }
  additive<T>(
      c,
      [=]() {
        return GaussianNoise<T>(mean, stdev, seed);
      },
      c.tier(4, 7),
      false,
      T(),
      T());
}

// Containers: generated and noised as the generator does, element by element
template <typename T>
void containers(mc::Ctx& c) {
  const int kind = c.pick(2);
  const std::size_t seed = Seeds[c.pick(8)];
  const std::size_t n = c.range(0, c.tier(6, 20));
  c.shard();
  c.note(kind ? "gaussian" : "uniform", " seed ", seed, " size ", n);
  const T lo = TypeTraits<T>::fromScalar(1), hi = TypeTraits<T>::fromScalar(20);
  std::vector<T> values;
  Raster<T, 2> a({Index(n), 2});
  Sequence<T> b(2 * n);
  b.fill(T(5));
  Raster<T, 2> d({Index(n), 2});
  if (kind) {
    GaussianNoise<T> g(lo, hi, seed);
    for (std::size_t i = 0; i < 2 * n; ++i) {
      values.push_back(g());
    }
    a.generate(GaussianNoise<T>(lo, hi, seed));
    b.apply(GaussianNoise<T>(lo, hi, seed));
    GaussianNoise<T> h(lo, hi, seed);
    d.generate(h);
  } else {
    UniformNoise<T> g(lo, hi, seed);
    for (std::size_t i = 0; i < 2 * n; ++i) {
      values.push_back(g());
    }
    a.generate(UniformNoise<T>(lo, hi, seed));
    b.apply(UniformNoise<T>(lo, hi, seed));
    UniformNoise<T> h(lo, hi, seed);
    d.generate(h);
  }
  for (std::size_t i = 0; i < 2 * n; ++i) {
    EXPECT(c, mc::same(a[i], values[i]) && mc::same(d[i], values[i]), "generated", a[i], d[i], "instead of", values[i]);
    EXPECT(c, mc::same(b[i], T(T(5) + values[i])), "noised", b[i], "instead of 5 +", values[i]);
    c.step();
  }
  c.outcome(values);
}

// Random containers lie in the default bounds
template <typename T>
void randoms(mc::Ctx& c) {
  const std::size_t n = c.range(0, c.tier(8, 64));
  c.shard();
  const auto s = random<T>(n);
  EXPECT(c, s.size() == n);
  for (const auto& e : s) {
    EXPECT(c, Noise16<T>::between(e, Limits<T>::halfMin(), Limits<T>::halfMax()), "random value", e);
    c.step();
  }
}

template <typename T>
void poisson(mc::Ctx& c) {
  const T mean = c.of({T(0), T(1), T(10), T(50)});
  const std::size_t seed = Seeds[c.pick(8)];
  const bool stable = c.flip();
  c.shard();
  c.note(stable ? "stable " : "", "poisson mean ", mean, " seed ", seed);
  const int length = c.tier(4, 6);
  // Same history twice, same values
  auto run = [&](auto a, auto b) {
    const std::vector<T> ins {T(0), T(7), T(100), T(10000)};
    for (int i = 0; i < length; ++i) {
      const int k = c.pick(5);
      const T x = k == 0 ? a() : a(ins[k - 1]);
      const T y = k == 0 ? b() : b(ins[k - 1]);
      EXPECT(c, mc::same(x, y), "two generators with the same seed gave", x, "and", y);
      // Far beyond the tails: another mean
      const double m = double(k == 0 ? mean : ins[k - 1]);
      EXPECT(c, std::abs(double(x) - m) <= (m == 0 ? 0 : 12 * std::sqrt(m) + 20), "shot noise of mean", m, "is", x);
      c.step();
      c.outcome(x);
    }
  };
  if (stable) {
    run(StablePoissonNoise<T>(mean, seed), StablePoissonNoise<T>(mean, seed));
  } else {
    run(PoissonNoise<T>(mean, seed), PoissonNoise<T>(mean, seed));
  }
}

// Stable Poisson: equal inputs at an index give equal outputs, whatever the other values
template <typename T>
void stable(mc::Ctx& c) {
  const std::vector<T> alphabet {T(0), T(2), T(11), T(13), T(90)};
  const std::size_t n = c.range(1, 3);
  const std::size_t seed = Seeds[c.pick(c.tier(4, 8))];
  const auto a = c.word(n, alphabet);
  c.shard();
  const auto b = c.word(n, alphabet);
  c.note(a, " and ", b, " seed ", seed);
  const T v = c.of({T(7), T(30)});
  Sequence<T> x(n + 2), y(n + 2);
  for (std::size_t i = 0; i < n; ++i) {
    x[i] = a[i];
    y[i] = b[i];
  }
  x[n] = x[n + 1] = y[n] = y[n + 1] = v;
  const auto x0 = x;
  const auto y0 = y;
  x.apply(StablePoissonNoise<T>(T(1), seed));
  StablePoissonNoise<T> noise(T(3), seed);
  y.apply(noise);
  for (std::size_t i = 0; i < n + 2; ++i) {
    if (x0[i] == y0[i]) {
      EXPECT(c, mc::same(x[i], y[i]), "element", i, "of equal input", x0[i], "is", x[i], "and", y[i]);
    }
    c.step();
  }
  c.outcome(std::vector<T>(x.begin(), x.end()));
}

template <typename T>
void impulse(mc::Ctx& c) {
  const std::vector<double> probabilities {0, .1, .25, .5, .3, 1, 2};
  const int n = c.range(1, 3);
  const auto p = c.word(n, probabilities);
  c.shard();
  const std::size_t seed = Seeds[c.pick(c.tier(4, 8))];
  const std::vector<T> values {T(10), T(20), T(30)};
  std::map<T, double> m;
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    m[values[i]] = p[i];
    sum += p[i];
  }
  const int form = c.pick(3);
  c.note("probabilities ", p, " seed ", seed, " form ", form);
  auto noise = [&]() {
    return form == 1 && n == 1 ? ImpulseNoise<T>(values[0], p[0], seed) :
        form == 2 && n == 2    ? ImpulseNoise<T>::saltAndPepper(p[0], p[1], values[0], values[1], seed) :
                                 ImpulseNoise<T>(m, seed);
  };
  auto a = noise();
  auto b = noise();
  const int length = c.tier(40, 200);
  std::vector<T> out;
  for (int i = 0; i < length; ++i) {
    const T in = T(1 + i % 5);
    const T x = a(in);
    const T y = b(in);
    EXPECT(c, mc::same(x, y), "two generators with the same seed gave", x, "and", y);
    int k = 0;
    while (k < n && x != values[k]) {
      ++k;
    }
    EXPECT(c, x == in || k < n, "impulse noise of", in, "is", x);
    if (k < n) {
      EXPECT(c, p[k] > 0, "impulse", x, "has a null probability");
    } else {
      EXPECT(c, sum < 1 - 1e-9, "input is untouched although probabilities sum to", sum);
    }
    if (sum == 0) {
      EXPECT(c, x == in);
    }
    out.push_back(x);
    c.step();
  }
  Sequence<T> s(length);
  for (int i = 0; i < length; ++i) {
    s[i] = T(1 + i % 5);
  }
  s.apply(noise());
  EXPECT(c, mc::same(s, out), "applying to a container differs");
  Sequence<T> g(length);
  g.generate(noise());
  for (int i = 0; i < length; ++i) {
    EXPECT(c, mc::same(g[i], out[i] == T(1 + i % 5) ? T(0) : out[i]), "generation is", g[i], "and application", out[i]);
  }
  c.outcome(out);
}

// Without seed, the current time is used: generators made at different times are independent
template <typename G, typename T>
bool sameValues16(G&& a, G&& b, T in) {
  bool out = true;
  for (int i = 0; i < 40; ++i) {
    const T x = i % 2 ? a() : a(in);
    const T y = i % 2 ? b() : b(in);
    out = out && mc::same(x, y);
  }
  return out;
}

template <typename T>
void timeSeeded(mc::Ctx& c) {
  const std::vector<std::int64_t> days {0, 1, 365, 19000};
  const std::int64_t second = 1000000000;
  const std::int64_t from = c.of(days) * 86400 * second + c.of(std::vector<std::int64_t> {0, 1, 123456789});
  const std::int64_t gap = c.of(std::vector<std::int64_t> {1, 7, 3600, 100000}) * second + c.of(std::vector<std::int64_t> {0, 1001, 987654321});
  const int form = c.pick(8);
  c.shard();
  c.note("time ", from, " then ", gap, " ns later, form ", form);
  const auto run = [&](auto make) {
    clock16 = from;
    auto a = make();
    clock16 = from + gap;
    auto b = make();
    EXPECT(c, !sameValues16(a, b, T(5)), "generators made at different times give the same values");
  };
  const std::size_t now = -1;
  switch (form) {
    case 0:
      run([&] { return UniformNoise<T>(T(0), T(100)); });
      break;
    case 1:
      run([&] { return UniformNoise<T>(T(0), T(100), now); });
      break;
    case 2:
      run([&] { return GaussianNoise<T>(T(50), T(20)); });
      break;
    case 3:
      run([&] { return GaussianNoise<T>(T(50), T(20), now); });
      break;
    case 4:
      run([&] { return PoissonNoise<T>(T(50)); });
      break;
    case 5:
      run([&] { return PoissonNoise<T>(T(50), now); });
      break;
    case 6:
      run([&] { return ImpulseNoise<T>(T(9), .5); });
      break;
    case 7:
      run([&] { return ImpulseNoise<T>::saltAndPepper(.3, .4); });
      break;
  }
  c.step(80);
  c.outcome(form);
}

// Random rasters
template <typename T, Index N>
void rasters(mc::Ctx& c) {
  const std::int64_t from = c.of(std::vector<std::int64_t> {0, 123456789, 1641600000000000000L});
  const std::int64_t gap = c.of(std::vector<std::int64_t> {1001, 1000000000, 86400000000000});
  const Coord s = pickShape(c, N == -1 ? 2 : N, 0, N == 1 ? 40 : 3);
  c.shard();
  c.note("shape ", s, " at ", from, " then ", gap, " ns later");
  clock16 = from;
  const Raster<T, N> a = Litl::random<T, N>(pos<N>(s));
  clock16 = from + gap;
  const auto b = Litl::random<T, N>(pos<N>(s));
  for (const auto* r : {&a, &b}) {
    EXPECT_EQ(c, coord<N>(r->shape()), s);
    EXPECT(c, Index(r->size()) == product(s));
    for (auto e : *r) {
      EXPECT(c, e >= Limits<T>::halfMin() && e <= Limits<T>::halfMax(), "value is", e);
    }
  }
  if (product(s) >= 16) {
    EXPECT(c, a != b, "same random values at different times");
    std::set<T> values(a.begin(), a.end());
    EXPECT(c, Index(values.size()) > product(s) / 4, "only", values.size(), "random values");
  }
  c.step();
  c.outcome(std::vector<T>(a.begin(), a.end()));
}

// Default arguments
template <typename T>
void defaults(mc::Ctx& c) {
  const double salt = c.of(std::vector<double> {0, 1, .5, 2});
  const double pepper = c.of(std::vector<double> {0, 1, .5, 2});
  const T mean = T(c.of(std::vector<int> {1, 3, 20, 100}));
  c.shard();
  c.note("salt ", salt, " pepper ", pepper, " mean ", mean);
  const int length = c.tier(40, 400);
  const T max = std::numeric_limits<T>::max();
  const T min = std::is_integral<T>::value ? std::numeric_limits<T>::min() : T(-max);
  auto noise = ImpulseNoise<T>::saltAndPepper(salt, pepper);
  for (int i = 0; i < length; ++i) {
    const T x = noise(T(1));
    EXPECT(c, (x == max && salt > 0) || (x == min && pepper > 0) || (x == T(1) && salt + pepper < 1), "impulse is", x);
    const T y = noise();
    EXPECT(c, (y == max && salt > 0) || (y == min && pepper > 0) || (y == T(0) && salt + pepper < 1), "impulse is", y);
    c.step(2);
  }
  // Stable noise is reproducible by default
  StablePoissonNoise<T> a(mean);
  StablePoissonNoise<T> b(mean);
  StablePoissonNoise<T> d(mean, 0);
  for (int i = 0; i < length; ++i) {
    const T x = a();
    EXPECT(c, x == b() && x == d(), "default stable noise differs");
  }
  StablePoissonNoise<T> s;
  StablePoissonNoise<T> t;
  StablePoissonNoise<T> u(T(5), 0);
  for (int i = 0; i < length; ++i) {
    const T in = T(1 + (i * 7) % 50);
    const T x = s(in);
    EXPECT(c, x == t(in) && x == u(in), "default stable noise of", in, "differs");
  }
  // Time-seeded bounds
  UniformNoise<T> uniform;
  for (int i = 0; i < length; ++i) {
    const T x = uniform();
    EXPECT(c, x >= Limits<T>::halfMin() && x <= Limits<T>::halfMax(), "uniform value is", x);
  }
  c.step(length);
  c.outcome(salt);
}

using Z = std::complex<double>;
TINSTANCE(timeSeeded, int);
TINSTANCE(timeSeeded, double);
TINSTANCE(defaults, int);
TINSTANCE(defaults, double);
TINSTANCE(uniform, int);
TINSTANCE(uniform, short);
TINSTANCE(uniform, unsigned long);
TINSTANCE(uniform, float);
TINSTANCE(uniform, double);
TINSTANCE(gaussian, double);
TINSTANCE(gaussian, float);
TINSTANCE(gaussian, int);
TINSTANCE(containers, int);
TINSTANCE(containers, double);
TINSTANCE(containers, Z);
TINSTANCE(randoms, int);
TINSTANCE(randoms, float);
TINSTANCE(randoms, unsigned short);
TINSTANCE(randoms, Z);
TINSTANCE(poisson, int);
TINSTANCE(poisson, double);
TINSTANCE(stable, int);
TINSTANCE(stable, long);
TINSTANCE(stable, float);
TINSTANCE(rasters, int, 1);
TINSTANCE(rasters, double, 2);
TINSTANCE(rasters, float, 3);
TINSTANCE(rasters, short, -1);
TINSTANCE(rasters, long, 1);
TINSTANCE(impulse, int);
TINSTANCE(impulse, double);
TINSTANCE(impulse, unsigned char);
// The other supported types
TINSTANCE(uniform, char);
TINSTANCE(uniform, signed char);
TINSTANCE(uniform, unsigned char);
TINSTANCE(uniform, unsigned short);
TINSTANCE(uniform, unsigned);
TINSTANCE(uniform, long);
TINSTANCE(uniform, long long);
TINSTANCE(uniform, unsigned long long);
TINSTANCE(uniform, long double);
TINSTANCE(uniform, std::complex<float>);
TINSTANCE(uniform, std::complex<double>);
TINSTANCE(uniform, std::complex<long double>);
TINSTANCE(gaussian, signed char);
TINSTANCE(gaussian, short);
TINSTANCE(gaussian, long);
TINSTANCE(gaussian, unsigned);
TINSTANCE(gaussian, long double);
TINSTANCE(gaussian, std::complex<double>);
TINSTANCE(gaussian, std::complex<float>);
TINSTANCE(stable, short);
TINSTANCE(stable, unsigned short);
TINSTANCE(stable, unsigned);
TINSTANCE(stable, unsigned long);
TINSTANCE(stable, long double);
TINSTANCE(impulse, short);
TINSTANCE(impulse, unsigned);
TINSTANCE(impulse, long);
TINSTANCE(impulse, unsigned long);
TINSTANCE(impulse, float);
TINSTANCE(impulse, long double);
TINSTANCE(impulse, signed char);
TINSTANCE(randoms, signed char);
TINSTANCE(randoms, unsigned char);
TINSTANCE(randoms, long);
TINSTANCE(randoms, unsigned long);
TINSTANCE(randoms, double);
TINSTANCE(randoms, long double);
TINSTANCE(randoms, std::complex<float>);
