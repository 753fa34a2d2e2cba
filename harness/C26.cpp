// C26: chronometer, under a controlled clock
#include "LitlRun/Chronometer.h"
#include "util.hpp"
using namespace Litl;

static std::int64_t clock26 = 0; // Nanoseconds

// Replace those of the standard library
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(clock26));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(clock26));
}
} // namespace _V2
} // namespace chrono
} // namespace std

using Deciseconds = std::chrono::duration<int, std::deci>;
using FloatMillis = std::chrono::duration<double, std::milli>;

template <typename TUnit>
struct Model26 {
  using Rep = typename TUnit::rep;
  TUnit offset;
  std::vector<TUnit> increments;
  std::int64_t tic = 0;
  bool started = false; // Since reset
  bool running = false;
};

template <typename TUnit>
struct Unit26 {
  static std::int64_t nanos() {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(TUnit(1)).count();
  }
  // Whole units, truncated
  static TUnit make(std::int64_t ns) {
    return TUnit(typename TUnit::rep(ns / nanos()));
  }
};
template <>
struct Unit26<FloatMillis> {
  static std::int64_t nanos() {
    return 1000000;
  }
  static FloatMillis make(std::int64_t ns) {
    return FloatMillis(ns / 1e6);
  }
};

template <typename TUnit>
void verify(mc::Ctx& c, const Chronometer<TUnit>& chrono, const Model26<TUnit>& model) {
  const double tol = std::is_floating_point<typename TUnit::rep>::value ? 1e-9 : 0;
  EXPECT_EQ(c, chrono.isRunning(), model.running);
  EXPECT_EQ(c, chrono.count(), model.increments.size());
  EXPECT_EQ(c, chrono.increments().size(), model.increments.size());
  auto elapsed = model.offset;
  for (auto i : model.increments) {
    elapsed += i;
  }
  c.near(double(chrono.elapsed().count()), double(elapsed.count()), tol * std::abs(double(elapsed.count())), "elapsed");
  c.step();
  if (model.increments.empty()) {
    return;
  }
  long double mean = 0;
  double min = model.increments[0].count();
  double max = min;
  for (std::size_t i = 0; i < model.increments.size(); ++i) {
    const double inc = model.increments[i].count();
    EXPECT(c, std::abs(chrono.increments()[i] - inc) <= tol * inc, "increment", i, "is", chrono.increments()[i], "instead of", inc);
    mean += inc;
    min = std::min(min, inc);
    max = std::max(max, inc);
  }
  mean /= model.increments.size();
  long double var = 0;
  for (auto i : model.increments) {
    var += (i.count() - mean) * (i.count() - mean);
  }
  const double stdev = std::sqrt(var / model.increments.size());
  c.near(double(chrono.last().count()), double(model.increments.back().count()), tol * max, "last");
  c.near(chrono.mean(), double(mean), 1e-12 * max, "mean");
  c.near(chrono.stdev(), stdev, 1e-9 * max, "standard deviation");
  c.near(chrono.min(), min, tol * max, "minimum");
  c.near(chrono.max(), max, tol * max, "maximum");
}

template <typename TUnit>
void advance(mc::Ctx& c, int n) {
  static const std::int64_t unit = Unit26<TUnit>::nanos();
  // Fractions of units, and long times
  const std::int64_t ticks[] = {unit, 2 * unit + unit / 2, 0, unit - (unit > 1), 1000000007 * (unit > 1000 ? 1 : unit) * 3};
  const auto t = ticks[c.pick(n)];
  clock26 += t;
  c.note("wait ", long(t), " ns");
}

int resetOffset26 = 7; // Offset given to reset()

template <typename TUnit>
void operate(mc::Ctx& c, Chronometer<TUnit>& chrono, Model26<TUnit>& model, int op, int advances) {
  switch (op) {
    case 0:
      c.note("start");
      advance<TUnit>(c, advances);
      chrono.start();
      model.tic = clock26;
      model.started = model.running = true;
      break;
    case 1: {
      if (!model.started) { // No start to be compared with
        c.prune();
      }
      c.note("stop");
      advance<TUnit>(c, advances);
      const auto inc = Unit26<TUnit>::make(clock26 - model.tic);
      c.near(double(chrono.stop().count()), double(inc.count()), 1e-9 * std::is_floating_point<typename TUnit::rep>::value * inc.count(), "stop()");
      model.increments.push_back(inc);
      model.running = false;
      break;
    }
    case 2:
      c.note("reset");
      chrono.reset();
      model = Model26<TUnit> {TUnit()};
      break;
    default:
      c.note("reset with offset");
      chrono.reset(TUnit(resetOffset26));
      model = Model26<TUnit> {TUnit(resetOffset26)};
  }
}

// One chronometer
template <typename TUnit>
void histories(mc::Ctx& c) {
  clock26 = c.of<std::int64_t>({123456789, 0});
  const int offset = c.of({0, 5, -5});
  resetOffset26 = offset < 0 ? -100 : 7;
  auto chrono = offset ? Chronometer<TUnit>(TUnit(offset)) : Chronometer<TUnit>();
  Model26<TUnit> model {TUnit(offset)};
  verify(c, chrono, model);
  const int length = c.tier(6, 7);
  for (int i = 0; i < length; ++i) {
    operate(c, chrono, model, c.pick(4), i < 4 ? 4 : 2);
    if (i == 0) {
      c.shard();
    }
    verify(c, chrono, model);
  }
  c.outcome(model.increments.size());
}

TINSTANCE(histories, std::chrono::milliseconds);
TINSTANCE(histories, std::chrono::nanoseconds);
TINSTANCE(histories, Deciseconds);
TINSTANCE(histories, FloatMillis);

// Two chronometers and copies
template <typename TUnit>
void pairs(mc::Ctx& c) {
  clock26 = 42;
  resetOffset26 = 7;
  Chronometer<TUnit> chronos[] = {Chronometer<TUnit>(), Chronometer<TUnit>(TUnit(3))};
  Model26<TUnit> models[] = {{TUnit()}, {TUnit(3)}};
  const int length = c.tier(6, 7);
  for (int i = 0; i < length; ++i) {
    const int k = c.pick(2);
    const int op = c.pick(5);
    c.note("chronometer ", k);
    if (op == 4) {
      c.note("copy");
      if (i % 2) {
        auto copy = chronos[k];
        chronos[1 - k] = std::move(copy);
      } else {
        chronos[1 - k] = chronos[k];
      }
      models[1 - k] = models[k];
    } else {
      operate(c, chronos[k], models[k], op, 1);
      clock26 += i * Unit26<TUnit>::nanos();
    }
    if (i == 1) {
      c.shard();
    }
    verify(c, chronos[0], models[0]);
    verify(c, chronos[1], models[1]);
  }
  c.outcome(models[0].increments.size() * 10 + models[1].increments.size());
}

TINSTANCE(pairs, std::chrono::milliseconds);
TINSTANCE(pairs, std::chrono::seconds);

// Many increments, possibly long and nearly equal
template <typename TUnit>
void statistics(mc::Ctx& c) {
  clock26 = 1;
  const auto unit = Unit26<TUnit>::nanos();
  const std::int64_t base = c.of<std::int64_t>({0, 10, 99999, 1000003, 100000007, 3000000019});
  if (double(base) * unit > 1e16 || (std::is_same<typename TUnit::rep, int>::value && base > 200000000)) {
    c.prune();
  }
  c.shard();
  Chronometer<TUnit> chrono;
  Model26<TUnit> model {TUnit()};
  const int n = c.range(1, c.tier(6, 8));
  for (int i = 0; i < n; ++i) {
    const auto t = (base + c.pick(4)) * unit;
    c.note(long(t), " ns");
    chrono.start();
    clock26 += t;
    EXPECT_EQ(c, chrono.stop().count(), Unit26<TUnit>::make(t).count());
    clock26 += 17;
    model.increments.push_back(Unit26<TUnit>::make(t));
  }
  verify(c, chrono, model);
  c.outcome(chrono.stdev());
}

// More increments than 8 or 16 bits can count: 0, 1, 2, 3, 4 then again
template <typename TUnit>
void many(mc::Ctx& c) {
  clock26 = 1;
  const auto unit = Unit26<TUnit>::nanos();
  const std::size_t n = c.of<std::size_t>({255, 256, 257, 300, 1000, 65535, 65536, 65537, 70001});
  const std::size_t low = c.of<std::size_t>({0, n / 2, n - 1}); // Smallest and largest ones
  const std::size_t high = n - 1 - low / 2;
  c.shard();
  c.note(n, " increments, smallest ", low, ", largest ", high);
  Chronometer<TUnit> chrono(TUnit(5));
  Model26<TUnit> model {TUnit(5)};
  for (std::size_t i = 0; i < n; ++i) {
    const auto t = std::int64_t(i == low ? 1 : i == high ? 50 : 10 + i % 5) * unit;
    chrono.start();
    clock26 += t;
    EXPECT(c, chrono.stop().count() == Unit26<TUnit>::make(t).count(), "increment", i);
    clock26 += unit / 3;
    model.increments.push_back(Unit26<TUnit>::make(t));
  }
  verify(c, chrono, model);
  c.step(n);
  chrono.reset();
  clock26 += 10 * unit;
  EXPECT(c, chrono.count() == 0 && chrono.increments().empty(), "increments after a reset");
  c.outcome(n);
}

// The smallest and largest increments anywhere
template <typename TUnit>
void places(mc::Ctx& c) {
  clock26 = 5;
  const auto unit = Unit26<TUnit>::nanos();
  const std::size_t n = c.range(2, c.tier(24, 40));
  c.shard();
  const std::size_t low = c.range(0, n - 1);
  const std::size_t high = c.range(0, n - 1);
  c.note(n, " increments, smallest ", low, ", largest ", high);
  Chronometer<TUnit> chrono(TUnit(5));
  Model26<TUnit> model {TUnit(5)};
  for (std::size_t i = 0; i < n; ++i) {
    const auto t = std::int64_t(i == high ? 50 : i == low ? 1 : 10 + i % 5) * unit;
    chrono.start();
    clock26 += t;
    chrono.stop();
    model.increments.push_back(Unit26<TUnit>::make(t));
    EXPECT(c, chrono.last() == model.increments.back(), "last increment is", chrono.last().count());
  }
  verify(c, chrono, model);
  c.step(n);
  c.outcome(std::vector<std::size_t> {low, high});
}

TINSTANCE(places, std::chrono::milliseconds);
TINSTANCE(places, FloatMillis);
TINSTANCE(many, std::chrono::milliseconds);
TINSTANCE(many, Deciseconds);
TINSTANCE(many, FloatMillis);
TINSTANCE(statistics, std::chrono::milliseconds);
TINSTANCE(statistics, std::chrono::nanoseconds);
TINSTANCE(statistics, Deciseconds);
