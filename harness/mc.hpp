// Stateless model-checking engine: depth-first enumeration of every choice sequence of a driver
// ("scenario") which runs the real code of /repo and compares it with a reference model.
//
// A scenario draws all of its nondeterminism (inputs, operations, environment answers, schedules)
// from Ctx::pick(); the explorer runs it once per complete choice sequence, exhaustively.
#ifndef MC_HPP
#define MC_HPP

#include <array>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace mc {

struct Violation {
  std::string message;
};
struct Skip {}; // This subtree belongs to another worker
struct Prune {}; // Choice combination outside of the specified space (not counted as an execution)

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}

// Printing ///////////////////////////////////////////////////////////////////////////////////////

template <typename...>
using void_t_ = void;

template <typename T, typename = void>
struct IsRange : std::false_type {};
template <typename T>
struct IsRange<T, void_t_<decltype(std::declval<const T&>().begin()), decltype(std::declval<const T&>().end())>> :
    std::true_type {};

inline std::string str(const std::string& s) {
  return "\"" + s + "\"";
}
inline std::string str(const char* s) {
  return s;
}
inline std::string str(bool b) {
  return b ? "true" : "false";
}
template <typename T>
std::enable_if_t<std::is_integral<T>::value, std::string> str(T v) {
  return std::to_string(v);
}
template <typename T>
std::enable_if_t<std::is_enum<T>::value, std::string> str(T v) {
  return std::to_string(int(v));
}
template <typename T>
std::enable_if_t<std::is_floating_point<T>::value, std::string> str(T v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17Lg", (long double)v);
  return b;
}
template <typename T>
std::string str(const std::complex<T>& v) {
  return "(" + str(v.real()) + "," + str(v.imag()) + ")";
}
template <typename T>
std::enable_if_t<std::is_pointer<T>::value && !std::is_same<std::decay_t<std::remove_pointer_t<T>>, char>::value, std::string> str(T v) {
  return v ? "ptr" : "null";
}
template <typename T>
std::enable_if_t<IsRange<T>::value && !std::is_same<T, std::string>::value, std::string> str(const T& r);
template <typename A, typename B>
std::string str(const std::pair<A, B>& p) {
  return "<" + str(p.first) + ";" + str(p.second) + ">";
}
template <typename T>
std::enable_if_t<IsRange<T>::value && !std::is_same<T, std::string>::value, std::string> str(const T& r) {
  std::string s = "[";
  bool first = true;
  int n = 0;
  for (auto it = r.begin(); it != r.end(); ++it) {
    if (++n > 64) {
      s += " ...";
      break;
    }
    if (!first) {
      s += " ";
    }
    first = false;
    s += str(*it);
  }
  return s + "]";
}

// Equality: exact, NaN equal to NaN //////////////////////////////////////////////////////////////

template <typename A, typename B>
std::enable_if_t<(std::is_arithmetic<A>::value && std::is_arithmetic<B>::value), bool> same(const A& a, const B& b) {
  return a == b || (a != a && b != b);
}
template <typename A, typename B>
bool same(const std::complex<A>& a, const std::complex<B>& b) {
  return same(a.real(), b.real()) && same(a.imag(), b.imag());
}
inline bool same(const std::string& a, const std::string& b) {
  return a == b;
}
template <typename A, typename B>
std::enable_if_t<std::is_pointer<A>::value && std::is_pointer<B>::value, bool> same(A a, B b) {
  return a == b;
}
template <typename A, typename B>
std::enable_if_t<IsRange<A>::value && IsRange<B>::value && !std::is_same<A, std::string>::value, bool>
same(const A& a, const B& b) {
  auto i = a.begin();
  auto j = b.begin();
  for (; i != a.end() && j != b.end(); ++i, ++j) {
    if (!same(*i, *j)) {
      return false;
    }
  }
  return i == a.end() && j == b.end();
}
template <typename A, typename B>
std::enable_if_t<
    !(std::is_arithmetic<A>::value && std::is_arithmetic<B>::value) && !(IsRange<A>::value && IsRange<B>::value) &&
        !(std::is_pointer<A>::value && std::is_pointer<B>::value),
    bool>
same(const A& a, const B& b) {
  return a == b;
}

// Hashing of observations ////////////////////////////////////////////////////////////////////////

inline std::uint64_t hashBytes(const void* p, std::size_t n, std::uint64_t h = 0x1234) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 0x100000001b3ull;
  }
  return mix(h, n);
}
template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value, std::uint64_t> hashOf(const T& v) {
  double d = double(v);
  return hashBytes(&d, sizeof d);
}
template <typename T>
std::uint64_t hashOf(const std::complex<T>& v) {
  return mix(hashOf(v.real()), hashOf(v.imag()));
}
inline std::uint64_t hashOf(const std::string& s) {
  return hashBytes(s.data(), s.size());
}
template <typename T>
std::enable_if_t<IsRange<T>::value && !std::is_same<T, std::string>::value, std::uint64_t> hashOf(const T& r) {
  std::uint64_t h = 77;
  for (auto it = r.begin(); it != r.end(); ++it) {
    h = mix(h, hashOf(*it));
  }
  return h;
}

// Context ////////////////////////////////////////////////////////////////////////////////////////

class Ctx {
public:
  // Draw one of n alternatives. All alternatives are explored.
  int pick(int n);

  // Integer in [lo, hi].
  long range(long lo, long hi) {
    return lo + pick(int(hi - lo + 1));
  }

  bool flip() {
    return pick(2);
  }

  template <typename T>
  T of(std::initializer_list<T> list) {
    return *(list.begin() + pick(int(list.size())));
  }

  template <typename T>
  T of(const std::vector<T>& list) {
    return list[pick(int(list.size()))];
  }

  // n values from an alphabet
  template <typename T>
  std::vector<T> word(std::size_t n, const std::vector<T>& alphabet) {
    std::vector<T> w;
    for (std::size_t i = 0; i < n; ++i) {
      w.push_back(of(alphabet));
    }
    return w;
  }

  // Call once the choices made so far suffice to distribute the work between workers.
  void shard();

  // Discard this choice combination (outside of the specified space).
  [[noreturn]] void prune() {
    throw Prune();
  }

  bool thorough() const {
    return m_thorough;
  }
  // Bound depending on the tier
  long tier(long quick, long thorough) const {
    return m_thorough ? thorough : quick;
  }

  // Describe the execution (only evaluated when the description is needed).
  template <typename... Ts>
  void note(const Ts&... ts) {
    if (verbose) {
      const std::string parts[] = {str(ts)..., ""};
      for (const auto& p : parts) {
        notes += p;
      }
      notes += "; ";
    }
  }

  // Count one operation of the implementation compared to the model
  void step(std::uint64_t n = 1) {
    steps += n;
  }

  // Register the (abstract) state reached
  void state(std::uint64_t h);

  // Register an observed result
  template <typename T>
  void outcome(const T& v) {
    outcomeHash = mix(outcomeHash, hashOf(v));
    hasOutcome = true;
  }

  [[noreturn]] void fail(const std::string& m) {
    throw Violation {m};
  }

  void check(bool ok, const char* what) {
    ++checks;
    if (!ok) {
      fail(what);
    }
  }
  template <typename... Ts>
  void check(bool ok, const char* what, const Ts&... ts) {
    ++checks;
    if (!ok) {
      std::string m = what;
      const std::string parts[] = {str(ts)..., ""};
      for (const auto& p : parts) {
        m += " " + p;
      }
      fail(m);
    }
  }
  template <typename A, typename B>
  void eq(const A& got, const B& expected, const char* what) {
    ++checks;
    if (!same(got, expected)) {
      fail(std::string(what) + ": got " + str(got) + ", expected " + str(expected));
    }
  }
  template <typename A, typename B>
  void near(const A& got, const B& expected, double tol, const char* what) {
    ++checks;
    if (!(std::abs(got - expected) <= tol)) {
      fail(std::string(what) + ": got " + str(got) + ", expected " + str(expected));
    }
  }
  // f must throw an E
  template <typename E, typename F>
  void throws(F&& f, const char* what) {
    ++checks;
    try {
      f();
    } catch (const E&) {
      return;
    } catch (const Violation&) {
      throw;
    }
    fail(std::string(what) + ": expected exception was not thrown");
  }

  bool verbose = false;
  std::string notes;
  std::uint64_t checks = 0;
  std::uint64_t steps = 0;
  std::uint64_t outcomeHash = 0;
  bool hasOutcome = false;

  // Explorer internals
  std::vector<int> path; // choices
  std::vector<int> arity;
  std::size_t depth = 0;
  bool sharded = false;
  std::size_t shardDepth = 0;
  bool replaying = false;
  bool m_thorough = false;
};

struct Scenario {
  const char* name;
  void (*run)(Ctx&);
  int order;
};
std::vector<Scenario>& scenarios();
struct Register {
  Register(const char* name, void (*run)(Ctx&), int order = 0) {
    scenarios().push_back({name, run, order});
  }
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name) \
  static void name(mc::Ctx& c); \
  static mc::Register MC_CAT(mcreg_, name)(#name, &name); \
  static void name(mc::Ctx& c)

// Templated scenario: define TSCENARIO(name, T) then register instances with TINSTANCE(name, "label", types...)
#define TINSTANCE(name, ...) \
  static mc::Register MC_CAT(mcreg_##name, __COUNTER__)(#name "<" #__VA_ARGS__ ">", &name<__VA_ARGS__>)

#define EXPECT(c, cond, ...) (c).check(bool(cond), #cond, ##__VA_ARGS__)
#define EXPECT_EQ(c, got, expected) (c).eq((got), (expected), #got)

// Memory accounting (mc_main.cpp): live heap blocks allocated since Live construction ///////////
struct Live {
  Live();
  // Blocks allocated since construction and not freed
  long blocks() const;
  long before;
};
bool isLiveBlock(const void* p);

} // namespace mc

#endif
