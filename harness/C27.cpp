// C27: pipelines, under a controlled clock and with injected faults
#include "LitlRun/StepperPipeline.h"
#include "util.hpp"
using namespace Litl;

static std::int64_t clock27 = 0; // Nanoseconds

// Replace those of the standard library
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(clock27));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(clock27));
}
} // namespace _V2
} // namespace chrono
} // namespace std

struct Fault27 {
  int step;
};

template <int I, typename TPrerequisite, typename TReturn>
struct Step27 : PipelineStep<TPrerequisite, TReturn> {
  static constexpr int Id = I;
};

struct Chain {
  using S0 = Step27<0, void, int>;
  using S1 = Step27<1, S0, const int&>;
  using S2 = Step27<2, S1, long>;
  using S3 = Step27<3, S2, void>;
  using Steps = std::tuple<S0, S1, S2, S3>;
  static std::vector<std::vector<int>> prerequisites() {
    return {{}, {0}, {1}, {2}};
  }
};

struct Diamond {
  using S0 = Step27<0, void, char>;
  using S1 = Step27<1, S0, short>;
  using S2 = Step27<2, S0, int>;
  using S3 = Step27<3, std::tuple<S1, S2>, long>;
  using Steps = std::tuple<S0, S1, S2, S3>;
  static std::vector<std::vector<int>> prerequisites() {
    return {{}, {0}, {0}, {1, 2}};
  }
};

struct Roots { // Several roots and leaves, steps without return value, references
  using S0 = Step27<0, void, const int&>;
  using S1 = Step27<1, void, void>;
  using S2 = Step27<2, std::tuple<S1, S0>, int>;
  using S3 = Step27<3, std::tuple<S0, S2, S1>, const int&>;
  using S4 = Step27<4, S1, double>;
  using Steps = std::tuple<S0, S1, S2, S3, S4>;
  static std::vector<std::vector<int>> prerequisites() {
    return {{}, {}, {1, 0}, {0, 2, 1}, {1}};
  }
};

struct Ladder { // Shortcuts
  using S0 = Step27<0, std::tuple<>, int>;
  using S1 = Step27<1, S0, int>;
  using S2 = Step27<2, std::tuple<S0, S1>, int>;
  using S3 = Step27<3, std::tuple<S2, S0>, int>;
  using S4 = Step27<4, std::tuple<S3, S1, S2, S0>, int>;
  using Steps = std::tuple<S0, S1, S2, S3, S4>;
  static std::vector<std::vector<int>> prerequisites() {
    return {{}, {0}, {0, 1}, {2, 0}, {3, 1, 2, 0}};
  }
};

struct State27 { // Model of a pipeline
  std::vector<int> values; // 0 for steps not evaluated
  std::vector<double> millis;
};

struct Monitor27 {
  mc::Ctx& c;
  std::vector<std::vector<int>> prerequisites;
  int faults; // Remaining
  bool armed; // Whether a step is being requested
  std::vector<bool> required; // By the request
  State27* current;
  int evaluations;
  int scale; // Of the durations

  int evaluate(int id) {
    EXPECT(c, required[id], "step", id, "was evaluated although not required");
    EXPECT(c, current->values[id] == 0, "step", id, "was evaluated again");
    for (int p : prerequisites[id]) {
      EXPECT(c, current->values[p] != 0, "step", id, "was evaluated before", p);
    }
    ++evaluations;
    const double scales[][5] = {{1.25, 0, 3.5, 1000, 0.125}, {16777217, 0.5, 33554433, 3000000000, 16777219}};
    const auto& ms = scales[scale];
    clock27 += std::int64_t(ms[id] * 1e6);
    if (faults > 0 && c.flip()) {
      --faults;
      c.note("step ", id, " fails");
      throw Fault27 {id};
    }
    current->millis[id] = ms[id];
    return current->values[id] = evaluations % 100 + id * 20 % 27;
  }
};

template <typename TGraph>
class Pipe27 : public StepperPipeline<Pipe27<TGraph>> {
public:
  explicit Pipe27(Monitor27& m) : m_monitor(&m), m_values(std::tuple_size<typename TGraph::Steps>::value) {}
  using StepperPipeline<Pipe27>::reset;
  const int* address(int id) const {
    return &m_values[id];
  }

protected:
  template <typename S>
  void doEvaluate() {
    m_values[S::Id] = -1;
    m_values[S::Id] = m_monitor->evaluate(S::Id);
  }
  template <typename S>
  typename S::Return doGet() {
    return typename S::Return(m_values[S::Id]);
  }

private:
  Monitor27* m_monitor;
  std::vector<int> m_values;
};

template <typename TReturn>
struct Return27 {
  template <typename S, typename TPipe>
  static void get(mc::Ctx& c, TPipe& pipe, const State27& s) {
    const TReturn v = pipe.template get<S>();
    EXPECT(c, v == TReturn(s.values[S::Id]), "got", int(v), "instead of", s.values[S::Id]);
  }
};
template <>
struct Return27<void> {
  template <typename S, typename TPipe>
  static void get(mc::Ctx&, TPipe& pipe, const State27&) {
    pipe.template get<S>();
  }
};
template <>
struct Return27<const int&> {
  template <typename S, typename TPipe>
  static void get(mc::Ctx& c, TPipe& pipe, const State27& s) {
    const int& v = pipe.template get<S>();
    EXPECT(c, &v == pipe.address(S::Id), "reference to something else");
    EXPECT_EQ(c, v, s.values[S::Id]);
  }
};

template <typename TGraph, std::size_t I>
struct Dispatch27 {
  using S = std::tuple_element_t<I - 1, typename TGraph::Steps>;
  template <typename TPipe>
  static void request(mc::Ctx& c, TPipe& pipe, const State27& s, std::size_t id) {
    if (id == I - 1) {
      Return27<typename S::Return>::template get<S>(c, pipe, s);
    } else {
      Dispatch27<TGraph, I - 1>::request(c, pipe, s, id);
    }
  }
  template <typename TPipe>
  static void verify(mc::Ctx& c, const TPipe& pipe, const State27& s) {
    const int id = I - 1;
    EXPECT(c, pipe.template evaluated<S>() == (s.values[id] != 0), "step", id, "evaluated or not");
    EXPECT(c, std::abs(pipe.template milliseconds<S>() - (s.values[id] ? s.millis[id] : -1.)) < 1e-9, "duration of step", id, "is", pipe.template milliseconds<S>());
    Dispatch27<TGraph, I - 1>::verify(c, pipe, s);
  }
};
template <typename TGraph>
struct Dispatch27<TGraph, 0> {
  template <typename TPipe>
  static void request(mc::Ctx&, TPipe&, const State27&, std::size_t) {}
  template <typename TPipe>
  static void verify(mc::Ctx&, const TPipe&, const State27&) {}
};

template <typename TGraph, typename TPipe>
void verify(mc::Ctx& c, const TPipe& pipe, const State27& s) {
  Dispatch27<TGraph, std::tuple_size<typename TGraph::Steps>::value>::verify(c, pipe, s);
  double total = 0;
  for (std::size_t i = 0; i < s.values.size(); ++i) {
    total += s.values[i] ? s.millis[i] : 0;
  }
  EXPECT(c, std::abs(pipe.milliseconds() - total) < 1e-9, "total duration is", pipe.milliseconds(), "instead of", total);
  c.step();
}

template <typename TGraph>
void run(mc::Ctx& c, int count, int length, int faults) {
  constexpr std::size_t Size = std::tuple_size<typename TGraph::Steps>::value;
  clock27 = 1000;
  const auto prerequisites = TGraph::prerequisites();
  Monitor27 monitor {c, prerequisites, faults, false, {}, nullptr, 0, c.pick(2)};
  std::vector<Pipe27<TGraph>> pipes(count, Pipe27<TGraph>(monitor));
  std::vector<State27> states(count, State27 {std::vector<int>(Size, 0), std::vector<double>(Size, 0)});
  for (int i = 0; i < length; ++i) {
    const int k = c.pick(count);
    auto& pipe = pipes[k];
    auto& state = states[k];
    const std::size_t op = c.pick(Size + 1 + (count > 1));
    clock27 += 77;
    if (op < Size) {
      c.note("get step ", int(op), " of pipeline ", k);
      monitor.current = &state;
      monitor.required.assign(Size, false);
      monitor.required[op] = true;
      for (int s = int(op); s >= 0; --s) {
        if (monitor.required[s]) {
          for (int p : prerequisites[s]) {
            monitor.required[p] = true;
          }
        }
      }
      const int before = monitor.faults;
      bool failed = false;
      try {
        Dispatch27<TGraph, Size>::request(c, pipe, state, op);
      } catch (const Fault27&) {
        failed = true;
      }
      EXPECT(c, failed == (monitor.faults < before), "failure not reported");
      for (std::size_t s = 0; s < Size; ++s) {
        EXPECT(c, failed || !monitor.required[s] || state.values[s] != 0, "step", s, "was not evaluated");
      }
      EXPECT(c, monitor.faults >= before - 1, "other steps were run after a failure");
    } else if (op == Size) {
      c.note("reset ", k);
      pipe.reset();
      state.values.assign(Size, 0);
    } else {
      c.note("copy ", k);
      pipes[1 - k] = pipe;
      states[1 - k] = state;
    }
    if (i == 0) {
      c.shard();
    }
    for (int j = 0; j < count; ++j) {
      verify<TGraph>(c, pipes[j], states[j]);
    }
  }
  c.outcome(states[0].values);
}

template <typename TGraph>
void histories(mc::Ctx& c) {
  run<TGraph>(c, 1, c.tier(5, 6), 2);
}

TINSTANCE(histories, Chain);
TINSTANCE(histories, Diamond);
TINSTANCE(histories, Roots);
TINSTANCE(histories, Ladder);

template <typename TGraph>
void pairs(mc::Ctx& c) {
  run<TGraph>(c, 2, c.tier(4, 5), 1);
}

TINSTANCE(pairs, Diamond);
TINSTANCE(pairs, Roots);
