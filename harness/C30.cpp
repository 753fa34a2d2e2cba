// C30: ways of looping over pixels
#include "LitlRun/IterationBenchmark.h"
#include "util.hpp"
using namespace Litl;

using Value = IterationBenchmark::Value;

static std::int64_t clock30 = 0; // Nanoseconds; each reading takes 7 ms

// Replace those of the standard library
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(clock30 += 7000000));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(clock30 += 7000000));
}
} // namespace _V2
} // namespace chrono
} // namespace std

struct Bench30 : IterationBenchmark {
  mc::Ctx& c;
  const Index side;
  std::vector<Value> a, b;

  Bench30(mc::Ctx& ctx, Index s) : IterationBenchmark(s), c(ctx), side(s) {
    const Position<3> shape {s, s, s};
    EXPECT(c, m_a.shape() == shape && m_b.shape() == shape && m_c.shape() == shape, "wrong shape");
    a.assign(m_a.begin(), m_a.end());
    b.assign(m_b.begin(), m_b.end());
  }

  static Value value(Index i, int content) {
    switch (content) {
      case 0:
        return Value(i * 7 + 3);
      case 1:
        return Value(127 - i);
      case 2:
        return i % 3 == 0 ? Value(-128) : i % 3 == 1 ? Value(127) : Value(0);
      default:
        return Value(i * i * 11 - 50);
    }
  }

  void setInputs(int ca, int cb) {
    for (std::size_t i = 0; i < a.size(); ++i) {
      m_a.data()[i] = a[i] = value(i, ca);
      m_b.data()[i] = b[i] = value(i, cb);
    }
  }

  void set(std::size_t i, Value va, Value vb) {
    m_a.data()[i] = a[i] = va;
    m_b.data()[i] = b[i] = vb;
  }

  void perturb() {
    for (std::size_t i = 0; i < a.size(); ++i) {
      m_c.data()[i] = Value(a[i] + b[i] + 1 + i % 5);
    }
  }

  void run(int strategy) {
    using Strategy = Duration (IterationBenchmark::*)();
    static const Strategy strategies[] = {
        &Bench30::loopOverXyz,
        &Bench30::loopOverZyx,
        &Bench30::iterateOverPositions,
        &Bench30::iterateOverPositionsOptimized,
        &Bench30::loopOverIndices,
        &Bench30::iterateOverValues,
        &Bench30::callOperator,
        &Bench30::callGenerate};
    perturb();
    clock30 += 100000000000; // Not in the loop
    const auto before = clock30;
    const auto t = (this->*strategies[strategy])();
    EXPECT(c, t.count() >= 0, "negative duration");
    EXPECT(c, t.count() <= (clock30 - before) / 1000000, "duration of", t.count(), "ms instead of at most", (clock30 - before) / 1000000);
    EXPECT(c, m_c.shape() == Position<3>({side, side, side}), "wrong output shape");
    EXPECT_EQ(c, m_c.size(), a.size());
    for (std::size_t i = 0; i < a.size(); ++i) {
      EXPECT(c, m_a.data()[i] == a[i] && m_b.data()[i] == b[i], "input pixel", i, "was modified");
      EXPECT(c, m_c.data()[i] == Value(a[i] + b[i]), "output pixel", i, "is", int(m_c.data()[i]), "instead of", int(Value(a[i] + b[i])));
    }
    c.step();
  }
};

SCENARIO(histories) {
  const Index side = c.range(0, c.tier(4, 6));
  const int init = c.pick(3); // Initial, random contents
  c.note("side ", side);
  Bench30 bench(c, side);
  const int length = c.tier(4, 5);
  if (init) {
    bench.setInputs(init - 1, 3 * (init - 1));
  }
  for (int i = 0; i < length; ++i) {
    const int op = c.pick(9);
    if (op < 8) {
      c.note("strategy ", op);
      bench.run(op);
    } else {
      if (i == 0) {
        c.prune();
      }
      c.note("other inputs");
      bench.setInputs(i % 4, (i + 2 * init) % 4);
    }
    if (i == 0) {
      c.shard();
    }
  }
  if (init) { // Otherwise random
    c.outcome(std::vector<int>(bench.a.begin(), bench.a.end()));
  }
}

// Longer sides, up to more pixels than 16 bits can count
SCENARIO(sides) {
  const Index side = c.of<Index>({5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 41, 64});
  const int strategy = c.pick(8);
  c.shard();
  const int content = c.pick(4);
  Bench30 bench(c, side);
  bench.setInputs(content, (content + 1) % 4);
  c.note("side ", side, " strategy ", strategy, " content ", content);
  bench.run(strategy);
  c.outcome(side);
}

SCENARIO(largeSide) { // A side longer than 8 bits
  const int strategy = c.pick(8);
  c.shard();
  Bench30 bench(c, c.tier(131, 257));
  bench.setInputs(3, 0);
  bench.run(strategy);
}

// Pairs of pixel values
SCENARIO(values) {
  const int va = c.range(-128, 127);
  const int strategy = c.pick(8);
  c.shard();
  Bench30 bench(c, 7); // 343 pixels
  bench.setInputs(0, 0);
  for (std::size_t i = 0; i < bench.a.size(); ++i) {
    bench.set(i, Value(va), Value(i));
  }
  c.note("value ", va, " strategy ", strategy);
  bench.run(strategy);
}
