// C32: type, sequence and exception utilities
#include "LitlTypes/Exceptions.h"
#include "LitlTypes/Segment.h"
#include "LitlTypes/SeqUtils.h"
#include "LitlTypes/TypeUtils.h"
#include "LitlContainer/Holders.h"
#include "util.hpp"
#include <list>
#include <map>
#include <sstream>
using namespace Litl;

// Clamping and flooring ///////////////////////////////////////////////////////

template <typename T, typename U>
void clamping(mc::Ctx& c) {
  std::vector<T> values;
  std::vector<U> bounds;
  const bool s = std::is_signed<T>::value;
  for (int i = s ? -9 : 0; i < 10; ++i) {
    values.push_back(std::is_integral<T>::value ? T(i) : T(i) / 2);
  }
  values.push_back(std::numeric_limits<T>::max());
  values.push_back(std::numeric_limits<T>::lowest());
  for (int i = s ? -3 : 0; i < 4; ++i) {
    bounds.push_back(U(i));
  }
  const T in = c.of(values);
  const U min = c.of(bounds), max = c.of(bounds);
  if (max < min) {
    c.prune();
  }
  const auto out = clamp(in, min, max);
  EXPECT(c, (std::is_same<std::decay_t<decltype(out)>, T>::value));
  const T expected = in < T(min) ? T(min) : in > T(max) ? T(max) : in;
  EXPECT(c, out == expected, "clamp", in, "in", min, max, "is", out);
  c.step();
  c.outcome(std::vector<T> {out});
}

template <typename TInt, typename TFloat>
void flooring(mc::Ctx& c) {
  const long whole = c.of({0, 1, 2, 7, 100, 10000, -1, -2, -3, -7, -100, -10000});
  const int quarter = std::is_integral<TFloat>::value ? 0 : c.pick(5);
  const TFloat in = quarter == 4 ? std::nextafter(double(whole), -1e9) : TFloat(whole) + (std::is_integral<TFloat>::value ? TFloat(0) : TFloat(quarter * .25));
  const TInt out = Litl::floor<TInt>(in);
  const long expected = long(std::floor(double(in)));
  EXPECT(c, long(out) == expected, "floor of", in, "is", out, "instead of", expected);
  c.step();
  c.outcome(std::vector<long> {long(out)});
}

// Far from 0, where the type still has room
template <typename TInt, typename TFloat>
void farFlooring(mc::Ctx& c) {
  using L = std::numeric_limits<TInt>;
  const int bits = std::min(L::digits, std::numeric_limits<TFloat>::digits);
  const int e = c.range(0, bits);
  const int side = c.pick(2);
  const int kind = c.pick(7);
  // Powers of two and their neighbours, as the type rounds them
  TFloat in = std::ldexp(TFloat(1), e);
  switch (kind) {
    case 1:
      in += TFloat(.5);
      break;
    case 2:
      in -= TFloat(.25);
      break;
    case 3:
      in = std::nextafter(in, TFloat(0));
      break;
    case 4:
      in = std::nextafter(in, std::numeric_limits<TFloat>::max());
      break;
    case 5:
      in = in * TFloat(1.6180339887);
      break;
    case 6:
      in -= 1;
      break;
  }
  in = side ? -in : in;
  const TFloat f = std::floor(in);
  if (f < -std::ldexp(TFloat(1), L::digits) + (std::numeric_limits<TFloat>::digits < L::digits ? 1 : 0) || f >= std::ldexp(TFloat(1), L::digits)) {
    c.prune(); // Does not fit
  }
  const TInt out = Litl::floor<TInt>(in);
  EXPECT(c, out == TInt(f), "floor of", in, "is", out, "instead of", f);
  c.step();
  c.outcome(std::vector<long> {long(out)});
}

// Limits //////////////////////////////////////////////////////////////////////

template <typename T>
struct Scalar32 {
  using Type = T;
  static T make(T v) {
    return v;
  }
};
template <typename T>
struct Scalar32<std::complex<T>> {
  using Type = T;
  static std::complex<T> make(T v) {
    return {v, v};
  }
};

template <typename T>
void limits(mc::Ctx& c) {
  using S = typename Scalar32<T>::Type;
  using L = std::numeric_limits<S>;
  auto make = [](S v) {
    return Scalar32<T>::make(v);
  };
  EXPECT(c, (std::is_same<typename Limits<T>::Scalar, S>::value && std::is_same<typename TypeTraits<T>::Scalar, S>::value));
  EXPECT(c, Limits<T>::zero() == make(S(0)));
  EXPECT(c, Limits<T>::one() == make(S(1)));
  EXPECT(c, Limits<T>::min() == make(L::lowest()));
  EXPECT(c, Limits<T>::max() == make(L::max()));
  EXPECT(c, Limits<T>::inf() == make(L::has_infinity ? L::infinity() : L::max()));
  const S epsilon = L::is_integer ? S(1) : L::epsilon();
  EXPECT(c, Limits<T>::epsilon() == make(epsilon), "epsilon is", Limits<T>::epsilon());
  EXPECT(c, Limits<T>::almostMin() == make(S(L::lowest() + epsilon)), "almostMin is", Limits<T>::almostMin());
  EXPECT(c, Limits<T>::almostMax() == make(S(L::max() - epsilon)), "almostMax is", Limits<T>::almostMax());
  EXPECT(c, Limits<T>::halfMin() == make(S(L::lowest() / 2)), "halfMin is", Limits<T>::halfMin());
  EXPECT(c, Limits<T>::halfMax() == make(std::is_same<T, bool>::value ? S(1) : S(L::max() / 2 + (L::is_integer ? 1 : 0))), "halfMax is", Limits<T>::halfMax());
  for (int v : {0, 1, 5, 100}) {
    EXPECT(c, TypeTraits<T>::fromScalar(S(v)) == make(S(v)));
  }
  using F = typename TypeTraits<T>::Floating;
  EXPECT(c, (std::is_same<F, T>::value == (!std::numeric_limits<S>::is_integer)));
  EXPECT(c, (!std::numeric_limits<S>::is_integer || std::is_same<F, double>::value));
  // One call per component
  int calls = 0;
  const T out = TypeTraits<T>::applyScalar(
      [&](int v) {
        ++calls;
        return S(v + calls);
      },
      1);
  EXPECT(c, calls == int(sizeof(T) / sizeof(S)), "applyScalar called the function", calls, "times");
  EXPECT(c, reinterpret_cast<const S*>(&out)[0] == S(2));
  if (sizeof(T) > sizeof(S)) {
    EXPECT(c, reinterpret_cast<const S*>(&out)[1] == S(3));
  }
  c.step(20);
  c.outcome(std::vector<double> {double(L::max())});
}

// Sequences ///////////////////////////////////////////////////////////////////

struct NotIterable {
  int begin() {
    return 0;
  }
};
struct Tracked {
  static int copies;
  int value = 0;
  Tracked(int v) : value(v) {}
  Tracked(const Tracked& o) : value(o.value) {
    ++copies;
  }
  Tracked(Tracked&& o) = default;
  Tracked& operator=(const Tracked& o) = default;
};
int Tracked::copies = 0;
struct Aggregate {
  int a = 0;
  double b = 0;
  std::string c;
};
struct Aggregate14 {
  int a;
  double b;
  std::string c;
};

using Map32 = std::map<int, int>;
using Pair32 = std::tuple<int, int>;
using Image32 = Raster<int, 2>;
void traits(mc::Ctx& c) {
  EXPECT(c, isIterable<std::vector<int>>::value && isIterable<const std::list<int>>::value && isIterable<Map32&>::value && isIterable<std::string>::value &&
              isIterable<Position<2>>::value && isIterable<Image32>::value);
  EXPECT(c, !isIterable<int>::value && !isIterable<double*>::value && !isIterable<NotIterable>::value && !isIterable<Pair32>::value && !isIterable<void>::value);
  EXPECT(c, (isTuple<std::tuple<int, double>>() && isTuple<const std::tuple<>&>() && isTuple<std::array<int, 3>&&>()));
  EXPECT(c, !isTuple<std::vector<int>>() && !isTuple<int>() && !isTuple<std::list<int>&>());
  c.step(3);
  c.outcome(std::vector<int> {1});
}

// Every sequence kind with 0..4 elements over an alphabet
template <typename TSeq>
void sequence32(mc::Ctx& c, TSeq seq, const std::vector<int>& values, std::size_t n) {
  std::vector<int> seen;
  std::vector<const void*> where;
  const TSeq& k = seq;
  seqForeach(k, [&](const auto& e) {
    seen.push_back(e);
    where.push_back(&e);
  });
  EXPECT_EQ(c, seen, values);
  seen.clear();
  std::size_t i = 0;
  seqForeach(seq, [&](auto& e) {
    EXPECT(c, i < n && &e == where[i], "elements are not passed by reference");
    seen.push_back(e);
    e = e * 10 + int(i);
    ++i;
  });
  EXPECT_EQ(c, seen, values);
  std::vector<int> changed;
  for (std::size_t j = 0; j < n; ++j) {
    changed.push_back(values[j] * 10 + int(j));
  }
  seen.clear();
  seqForeach(TSeq(seq), [&](const auto& e) {
    seen.push_back(e);
  });
  EXPECT_EQ(c, seen, changed);
  // Transform, with a stateful function
  int calls = 0;
  auto f = [&](const auto& e) {
    return int(e) * 2 + 100 * calls++;
  };
  const auto out = seqTransform<std::vector<int>>(k, f);
  std::vector<int> expected;
  for (std::size_t j = 0; j < n; ++j) {
    expected.push_back(changed[j] * 2 + 100 * int(j));
  }
  EXPECT_EQ(c, out, expected);
  seen.clear();
  seqForeach(k, [&](const auto& e) {
    seen.push_back(e);
  });
  EXPECT_EQ(c, seen, changed);
  c.step(5);
  c.outcome(seen);
}

template <std::size_t... Is>
void tuples32(mc::Ctx& c, const std::vector<int>& v, std::index_sequence<Is...>) {
  sequence32(c, std::make_tuple(v[Is]...), v, v.size());
  const auto tuple = std::make_tuple(v[Is]...);
  int calls = 0;
  const auto sum = tupleApply(tuple, [&](auto... e) {
    ++calls;
    std::vector<int> args {e...};
    EXPECT_EQ(c, args, v);
    return int(args.size()) + 7;
  });
  EXPECT(c, calls == 1 && sum == int(v.size()) + 7);
  const auto asVector = tupleAs<std::vector<int>>(tuple);
  EXPECT_EQ(c, asVector, v);
  // Heterogeneous
  const auto mixed = std::make_tuple(std::string("#") + std::to_string(v[Is])...);
  std::vector<std::string> seen, expected {std::string("#") + std::to_string(v[Is])...};
  seqForeach(mixed, [&](const auto& e) {
    seen.push_back(e);
  });
  EXPECT_EQ(c, seen, expected);
  EXPECT_EQ(c, (tupleAs<std::vector<std::string>>(mixed)), expected);
  // Iterators
  const std::vector<int> a {1, 2, 3, 4};
  auto its = std::make_tuple((a.begin() + v[Is] % 3)...);
  std::vector<int> got;
  for (int turn = 0; turn < 2; ++turn) {
    iteratorTupleApply(its, [&](const auto&... e) {
      got = {e...};
    });
    std::vector<int> should;
    for (auto x : v) {
      should.push_back(a[x % 3 + turn]);
    }
    EXPECT_EQ(c, got, should);
  }
  c.step(5);
}

template <std::size_t... Is>
void arrays32(mc::Ctx& c, const std::vector<int>& v, std::index_sequence<Is...>) {
  sequence32(c, std::array<int, sizeof...(Is)> {{v[Is]...}}, v, v.size());
  EXPECT_EQ(c, (tupleAs<std::vector<int>>(std::array<int, sizeof...(Is)> {{v[Is]...}})), v);
}

void sequences(mc::Ctx& c) {
  const int n = c.range(0, c.tier(4, 5));
  std::vector<int> v;
  for (int i = 0; i < n; ++i) {
    v.push_back(c.of({0, 1, 5, -3}) + (i == 0 ? 3 : 3));
  }
  c.note("values ", v);
  sequence32(c, std::vector<int>(v), v, n);
  sequence32(c, std::list<int>(v.begin(), v.end()), v, n);
  sequence32(c, std::vector<double>(v.begin(), v.end()), v, n);
  switch (n) {
    case 0:
      tuples32(c, v, std::make_index_sequence<0>());
      break;
    case 1:
      tuples32(c, v, std::make_index_sequence<1>());
      arrays32(c, v, std::make_index_sequence<1>());
      break;
    case 2:
      tuples32(c, v, std::make_index_sequence<2>());
      arrays32(c, v, std::make_index_sequence<2>());
      break;
    case 3:
      tuples32(c, v, std::make_index_sequence<3>());
      arrays32(c, v, std::make_index_sequence<3>());
      break;
    case 4:
      tuples32(c, v, std::make_index_sequence<4>());
      arrays32(c, v, std::make_index_sequence<4>());
      break;
    default:
      tuples32(c, v, std::make_index_sequence<5>());
      arrays32(c, v, std::make_index_sequence<5>());
  }
}

void heterogeneous(mc::Ctx& c) {
  const int a = c.of({0, -4, 9});
  const double b = c.of({.5, -2.25});
  const std::string s = c.of(std::vector<std::string> {"", "x", "a, b"});
  auto tuple = std::make_tuple(a, b, s);
  const auto g = tupleAs<Aggregate14>(tuple);
  EXPECT(c, g.a == a && g.b == b && g.c == s);
  EXPECT(c, std::get<2>(tuple) == s, "the tuple was modified");
  const auto t = seqTransform<Aggregate14>(tuple, [](const auto& e) {
    return e + e;
  });
  EXPECT(c, t.a == 2 * a && t.b == 2 * b && t.c == s + s);
  // Results are returned as they are
  int& r = tupleApply(tuple, [](int& x, double&, std::string&) -> int& {
    return x;
  });
  EXPECT(c, &r == &std::get<0>(tuple), "the result is not returned as a reference");
  Tracked::copies = 0;
  auto tracked = std::make_tuple(Tracked(1), Tracked(2));
  Tracked::copies = 0;
  int total = tupleApply(tracked, [](const Tracked& x, const Tracked& y) {
    return x.value * 10 + y.value;
  });
  seqForeach(tracked, [&](Tracked& x) {
    total += x.value++;
  });
  EXPECT(c, total == 15 && std::get<0>(tracked).value == 2 && std::get<1>(tracked).value == 3 && Tracked::copies == 0, "elements are copied");
  // Serialization
  std::ostringstream out, expected;
  serialize(out, a, b, s, 'c');
  expected << a << ", " << b << ", " << s << ", " << 'c';
  EXPECT_EQ(c, out.str(), expected.str());
  std::ostringstream one;
  serialize(one, s);
  EXPECT_EQ(c, one.str(), s);
  c.step(6);
  c.outcome(std::vector<std::string> {out.str()});
}

// Exceptions //////////////////////////////////////////////////////////////////

void messages(mc::Ctx& c) {
  const bool prefixed = c.flip();
  const std::string prefix = prefixed ? c.of(std::vector<std::string> {"Some prefix", "", "a: b\n"}) : "Litl error";
  const std::string message = c.of(std::vector<std::string> {"", "message", "two\nlines", "%s%n\t: ", std::string(300, 'm')});
  std::string expected = prefix + ": " + message;
  std::unique_ptr<Exception> e(prefixed ? new Exception(prefix, message) : new Exception(message));
  EXPECT_EQ(c, std::string(e->what()), expected);
  for (int i = 0; i < c.tier(3, 4); ++i) {
    switch (c.pick(3)) {
      case 0: {
        const std::string line = c.of(std::vector<std::string> {"", "line", "two\nlines", std::string(c.thorough() ? 70000 : 300, 'x') + "\n\n end "});
        const int indent = c.of({0, 1, 3, 300});
        auto& r = indent == 0 && c.flip() ? e->append(line) : e->append(line, indent);
        EXPECT(c, &r == e.get());
        expected += "\n" + std::string(2 * indent, ' ') + line;
        break;
      }
      case 1: { // Copies are independent
        Exception copy(*e);
        copy.append("other");
        EXPECT_EQ(c, std::string(copy.what()), expected + "\nother");
        break;
      }
      default: { // Throw
        try {
          throw *e;
        } catch (const std::exception& x) {
          EXPECT_EQ(c, std::string(x.what()), expected);
        }
      }
    }
    EXPECT_EQ(c, std::string(e->what()), expected);
    c.step();
  }
  c.outcome(std::vector<std::string> {expected});
}

template <typename T>
void bounds(mc::Ctx& c) {
  std::vector<T> all;
  for (int i = std::is_signed<T>::value ? -2 : 0; i < 4; ++i) {
    all.push_back(T(i));
  }
  all.push_back(std::numeric_limits<T>::max());
  all.push_back(std::numeric_limits<T>::lowest());
  const T value = c.of(all), min = c.of(all), max = c.of(all);
  const std::string name = c.of(std::vector<std::string> {"", "name", "a\nb: %d"});
  const std::string expected =
      "Out of bounds error: " + name + ": " + std::to_string(value) + " not in [" + std::to_string(min) + ", " + std::to_string(max) + "]";
  bool thrown = false;
  try {
    OutOfBoundsError::mayThrow(name, value, std::make_pair(min, max));
  } catch (const OutOfBoundsError& e) {
    thrown = true;
    EXPECT_EQ(c, std::string(e.what()), expected);
  }
  EXPECT(c, thrown == !(value >= min && value <= max), "value", value, "bounds", min, max, "thrown", thrown);
  const OutOfBoundsError direct(name, value, std::make_pair(min, max));
  EXPECT_EQ(c, std::string(direct.what()), expected);
  c.step(2);
  c.outcome(std::vector<int> {thrown});
}

void pointersAndSizes(mc::Ctx& c) {
  int x = 0;
  const bool null = c.flip();
  bool thrown = false;
  try {
    NullPtrError::mayThrow(null ? nullptr : &x, "ptr");
  } catch (const NullPtrError& e) {
    thrown = true;
    EXPECT_EQ(c, std::string(e.what()), std::string("Null pointer error: ptr"));
  }
  EXPECT(c, thrown == null);
  const std::vector<std::size_t> sizes {0, 1, 2, 100, 256, 65536, std::size_t(1) << 32, std::size_t(-1)};
  const std::size_t in = c.of(sizes), ref = c.of(sizes);
  thrown = false;
  try {
    SizeError::mayThrow(in, ref);
  } catch (const Exception& e) {
    thrown = true;
    EXPECT_EQ(c, std::string(e.what()), "Size error: Expected " + std::to_string(ref) + ", got " + std::to_string(in));
  }
  EXPECT(c, thrown == (in != ref));
  c.step(2);
  c.outcome(std::vector<int> {null, thrown});
}

void segments(mc::Ctx& c) {
  const bool small = c.flip();
  const Index front = small ? c.range(-5, 5) : c.of({0L, -127L, 300L, -(1L << 31), 1L << 40});
  const Index size = small ? c.range(0, 6) : c.of({127L, 128L, 255L, 256L, 1000L, 65536L, 1L << 31, 1L << 32, 1L << 40});
  const auto s = Segment::fromSize(front, size);
  EXPECT(c, s.front() == front && s.back() == front + size - 1 && Index(s.size()) == size, "segment", s.front(), s.back(), s.size());
  const Segment t(front, front + size - 1);
  EXPECT(c, t.front() == front && t.back() == front + size - 1 && Index(t.size()) == size);
  c.step(2);
  c.outcome(std::vector<Index> {s.front(), s.back()});
}

TINSTANCE(clamping, int, int);
TINSTANCE(clamping, Index, int);
TINSTANCE(clamping, Index, Index);
TINSTANCE(clamping, double, double);
TINSTANCE(clamping, float, int);
TINSTANCE(clamping, unsigned char, unsigned char);
TINSTANCE(clamping, std::size_t, std::size_t);
TINSTANCE(flooring, Index, double);
TINSTANCE(flooring, Index, long double);
TINSTANCE(flooring, int, double);
TINSTANCE(flooring, Index, int);
TINSTANCE(flooring, int, Index);
TINSTANCE(flooring, short, double);
TINSTANCE(farFlooring, Index, double);
TINSTANCE(farFlooring, Index, float);
TINSTANCE(farFlooring, Index, long double);
TINSTANCE(farFlooring, int, double);
TINSTANCE(farFlooring, int, float);
TINSTANCE(farFlooring, short, float);
SCENARIO(flooring_float) { // All the quarters in a range
  const float in = c.range(-400, 400) * .25f;
  EXPECT(c, Litl::floor<int>(in) == int(std::floor(in)) && Litl::floor<Index>(in) == Index(std::floor(in)), "floor of", in);
  c.step();
  c.outcome(std::vector<int> {Litl::floor<int>(in)});
}
TINSTANCE(limits, bool);
TINSTANCE(limits, unsigned char);
TINSTANCE(limits, char);
TINSTANCE(limits, signed char);
TINSTANCE(limits, unsigned short);
TINSTANCE(limits, signed short);
TINSTANCE(limits, unsigned int);
TINSTANCE(limits, signed int);
TINSTANCE(limits, unsigned long);
TINSTANCE(limits, signed long);
TINSTANCE(limits, unsigned long long);
TINSTANCE(limits, signed long long);
TINSTANCE(limits, float);
TINSTANCE(limits, double);
TINSTANCE(limits, long double);
TINSTANCE(limits, std::complex<float>);
TINSTANCE(limits, std::complex<double>);
TINSTANCE(limits, std::complex<long double>);
TINSTANCE(bounds, int);
TINSTANCE(bounds, Index);
TINSTANCE(bounds, double);
TINSTANCE(bounds, std::size_t);
SCENARIO(type_traits) {
  traits(c);
}
SCENARIO(all_sequences) {
  sequences(c);
}
SCENARIO(heterogeneous_tuples) {
  heterogeneous(c);
}
SCENARIO(exception_messages) {
  messages(c);
}
SCENARIO(pointers_and_sizes) {
  pointersAndSizes(c);
}
SCENARIO(all_segments) {
  segments(c);
}
