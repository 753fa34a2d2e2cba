#ifndef C12_HPP
#define C12_HPP
// C12: fill, range, linspace, generate, apply
#include "LitlContainer/Sequence.h"
#include "util.hpp"
using namespace Litl;

// A container of n elements inside a guarded buffer when non-owning
template <typename C>
struct Box12;
template <typename T, Index N, typename H>
struct Box12<Raster<T, N, H>> {
  using C = Raster<T, N, H>;
  static Position<N> shape(std::size_t n) {
    Position<N> p(N == -1 ? 2 : N);
    p.fill(1);
    p[p.size() - 1] = Index(n);
    if (n == 4 && p.size() > 1) {
      p.fill(1);
      p[0] = p[1] = 2;
    }
    return p;
  }
  explicit Box12(std::size_t n) : value(shape(n)) {}
  void guards(mc::Ctx&) {}
  C value;
};
template <typename T, Index N>
struct Box12<Raster<T, N, PtrHolder<T>>> {
  using C = Raster<T, N, PtrHolder<T>>;
  explicit Box12(std::size_t n) : size(n), buffer(n + 4, T(113)), value(Box12<Raster<T, N>>::shape(n), buffer.data() + 2) {}
  void guards(mc::Ctx& c) {
    for (std::size_t i : {std::size_t(0), std::size_t(1), size + 2, size + 3}) {
      EXPECT(c, buffer[i] == T(113), "memory outside of the container was written");
    }
  }
  std::size_t size;
  std::vector<T> buffer;
  C value;
};
template <typename T, Index N>
struct Box12<Vector<T, N>> {
  using C = Vector<T, N>;
  explicit Box12(std::size_t n) : value(Index(n)) {}
  void guards(mc::Ctx&) {}
  C value;
};
template <typename T, typename H>
struct Box12<Sequence<T, H>> {
  using C = Sequence<T, H>;
  explicit Box12(std::size_t n) : value(n) {}
  void guards(mc::Ctx&) {}
  C value;
};

template <typename T>
struct Alpha12 {
  static std::vector<T> values() {
    if (std::is_floating_point<T>::value) {
      return {T(0), T(1), T(-2.5), T(0.1), T(1e6), T(-7), T(-0.), std::numeric_limits<T>::quiet_NaN()};
    }
    if (std::is_signed<T>::value) {
      return {T(0), T(1), T(-3), T(10), T(-128 / 4), T(27)};
    }
    return {T(0), T(1), T(3), T(10), T(60), T(27)};
  }
  // |got - exact| allowed inside a linear space
  static double tolerance(const T& min, const T& max) {
    if (std::is_integral<T>::value) {
      return 1;
    }
    return 8 * std::numeric_limits<T>::epsilon() * std::max(std::abs((double)min), std::abs((double)max));
  }
  static T between(const T& min, const T& max, std::size_t i, std::size_t n) {
    return 0;
  }
};
template <typename S>
struct Alpha12<std::complex<S>> {
  using T = std::complex<S>;
  static std::vector<T> values() {
    return {T(0, 0), T(1, 0), T(0, -2), T(.25, 10), T(-3, 3), T(1e3, 1), T(-0., 0), T(2, -0.)};
  }
  static double tolerance(const T& min, const T& max) {
    return 16 * std::numeric_limits<S>::epsilon() * (std::abs(min) + std::abs(max));
  }
};
template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value, long double> wide(const T& v) {
  return v;
}
template <typename S>
std::complex<long double> wide(const std::complex<S>& v) {
  return {v.real(), v.imag()};
}

// Same value, sign of zero included
template <typename T>
bool strictly12(const T& a, const T& b) {
  return (a != a && b != b) || (a == b && std::signbit(double(a)) == std::signbit(double(b)));
}
template <typename S>
bool strictly12(const std::complex<S>& a, const std::complex<S>& b) {
  return strictly12(a.real(), b.real()) && strictly12(a.imag(), b.imag());
}

template <typename C>
std::size_t pickSize(mc::Ctx& c, long max) {
  return c.range(0, max);
}

// Draw an argument: a value, or an element of the container
template <typename T, typename C>
const T& pickArg(mc::Ctx& c, const std::vector<T>& alphabet, C& container, const char* name) {
  const int k = c.pick(int(alphabet.size() + container.size()));
  if (k < int(alphabet.size())) {
    c.note(name, " = ", alphabet[k]);
    return alphabet[k];
  }
  c.note(name, " = element ", k - int(alphabet.size()));
  return container[k - alphabet.size()];
}

template <typename C>
void fills(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  const auto alphabet = Alpha12<T>::values();
  const int op = c.pick(5);
  const std::size_t n = c.range(0, c.tier(op == 2 ? 9 : 5, op == 2 ? 40 : 12));
  c.shard();
  Box12<C> b(n);
  C& x = b.value;
  for (std::size_t i = 0; i < n; ++i) {
    x[i] = alphabet[(i * 5 + 1) % alphabet.size()];
  }
  c.note("operation ", op, " on ", x);
  if (op == 0) {
    const T& a = pickArg(c, alphabet, x, "value");
    const T v = a;
    C& r = x.fill(a);
    EXPECT(c, &r == &x);
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, strictly12(T(x[i]), v), "fill: element", i, "is", x[i], "instead of", v);
      c.step();
    }
  } else if (op == 1) {
    const T& a = pickArg(c, alphabet, x, "min");
    const T& s = pickArg(c, alphabet, x, "step");
    T v = a;
    const T step = s;
    C& r = x.range(a, s);
    EXPECT(c, &r == &x);
    for (std::size_t i = 0; i < n; ++i, v += step) {
      EXPECT(c, x[i] == v || v != v, "range: element", i, "is", x[i], "instead of", v);
      c.step();
    }
  } else if (op == 2) {
    const T& a = pickArg(c, alphabet, x, "min");
    const T& z = pickArg(c, alphabet, x, "max");
    const T min = a, max = z;
    if (min != min || max != max) {
      c.prune();
    }
    C& r = x.linspace(a, z);
    EXPECT(c, &r == &x);
    c.step(n);
    if (n == 1) {
      EXPECT(c, x[0] == min || x[0] == max, "linspace of size 1:", x[0], "for", min, max);
    } else if (n > 1) {
      EXPECT(c, x[0] == min, "linspace: first element is", x[0], "instead of", min);
      EXPECT(c, x[n - 1] == max, "linspace: last element is", x[n - 1], "instead of", max);
      using S = typename TypeTraits<std::decay_t<decltype(wide(min))>>::Scalar;
      for (std::size_t i = 1; i + 1 < n; ++i) {
        const auto exact = wide(min) + (wide(max) - wide(min)) * S(i) / S(n - 1);
        EXPECT(c, std::abs(wide(T(x[i])) - exact) <= Alpha12<T>::tolerance(min, max), "linspace: element", i, "is", x[i], "instead of", exact);
      }
    }
  } else if (op == 3) {
    x.range();
    T v = Limits<T>::zero();
    for (std::size_t i = 0; i < n; ++i, v += Limits<T>::one()) {
      EXPECT(c, x[i] == v, "default range: element", i, "is", x[i], "instead of", v);
    }
  } else {
    x.linspace();
    if (n > 1) {
      EXPECT(c, x[0] == Limits<T>::zero() && x[n - 1] == Limits<T>::one(), "default linspace", x);
    }
  }
  b.guards(c);
  EXPECT(c, std::size_t(x.size()) == n);
  std::vector<T> out(x.begin(), x.end());
  c.outcome(out);
}

// A function with a record of its calls
template <typename T>
struct Record {
  std::vector<std::vector<long>> calls;
  template <typename... As>
  T operator()(const As&... as) {
    return impl({long(as)...});
  }
  T impl(std::initializer_list<long> as) {
    calls.push_back(as);
    long v = 3 + long(calls.size());
    for (auto a : calls.back()) {
      v = 2 * v - a;
    }
    return T(v % 50);
  }
};

enum Arg { SelfArg, VecArg, LongerArg, RasterArg, ArgCount };

template <typename C>
struct Apply {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  mc::Ctx& c;
  Box12<C> b;
  C& x;
  std::vector<T> before;
  std::vector<int> vec;
  std::vector<short> longer;
  Raster<long, 1> raster;
  bool apply;
  bool lvalue;
  std::vector<int> kinds;
  std::vector<int> vec0;
  std::vector<short> longer0;
  std::vector<long> raster0;

  Apply(mc::Ctx& c, std::size_t n) : c(c), b(n), x(b.value), raster({Index(n)}) {
    for (std::size_t i = 0; i < n; ++i) {
      x[i] = T((7 * i + 2) % 11);
      vec.push_back(5 - int(i));
      longer.push_back(short(i * i));
      raster[i] = 4 * long(i) - 9;
    }
    longer.push_back(77);
    longer.push_back(78);
    before.assign(x.begin(), x.end());
    vec0 = vec;
    longer0 = longer;
    raster0.assign(raster.begin(), raster.end());
  }

  std::vector<long> expectedArgs(std::size_t i) {
    std::vector<long> out;
    if (apply) {
      out.push_back(long(before[i]));
    }
    for (auto k : kinds) {
      out.push_back(k == SelfArg ? long(before[i]) : k == VecArg ? vec[i] : k == LongerArg ? longer[i] : raster[i]);
    }
    return out;
  }

  Record<T> record;
  template <typename... As>
  void call(const As&... as) {
    auto used = &record;
    C* r;
    if (lvalue) {
      r = apply ? &x.apply(record, as...) : &x.generate(record, as...);
    } else {
      auto f = [used](const auto&... vs) {
        return (*used)(vs...);
      };
      r = apply ? &x.apply(std::move(f), as...) : &x.generate(std::move(f), as...);
    }
    verify(r);
  }
  void verify(C* r) {
    EXPECT(c, r == &x);
    EXPECT(c, record.calls.size() == before.size(), "function called", record.calls.size(), "times for", before.size(), "elements");
    Record<T> model;
    for (std::size_t i = 0; i < before.size(); ++i) {
      const auto args = expectedArgs(i);
      EXPECT(c, record.calls[i] == args, "call", i, "got arguments", record.calls[i], "instead of", args);
      T v = args.size() == 0 ? model() : args.size() == 1 ? model(args[0]) : args.size() == 2 ? model(args[0], args[1]) : args.size() == 3 ? model(args[0], args[1], args[2]) : model(args[0], args[1], args[2], args[3]);
      EXPECT(c, x[i] == v, "element", i, "is", x[i], "instead of", v);
      c.step();
    }
    EXPECT(c, vec == vec0 && longer == longer0 && std::equal(raster0.begin(), raster0.end(), raster.begin()), "an argument container was modified");
    EXPECT(c, std::size_t(x.size()) == before.size());
    b.guards(c);
  }
  template <typename... As>
  void with(int left, const As&... as) {
    run(std::integral_constant<bool, (sizeof...(As) < 3)>(), left, as...);
  }
  template <typename... As>
  void run(std::false_type, int, const As&... as) {
    call(as...);
  }
  template <typename... As>
  void run(std::true_type, int left, const As&... as) {
    if (left == 0) {
      call(as...);
      return;
    }
    const int k = c.pick(sizeof...(As) < 2 ? ArgCount : 1);
    kinds.push_back(k);
    add(std::integral_constant<bool, (sizeof...(As) < 2)>(), k, left, as...);
  }
  template <typename... As>
  void add(std::false_type, int k, int left, const As&... as) {
    return with(left - 1, as..., x);
  }
  template <typename... As>
  void add(std::true_type, int k, int left, const As&... as) {
    switch (k) {
      case SelfArg:
        return with(left - 1, as..., x);
      case VecArg:
        return with(left - 1, as..., vec);
      case LongerArg:
        return with(left - 1, as..., longer);
      default:
        return with(left - 1, as..., raster);
    }
  }
};

template <typename C>
void generates(mc::Ctx& c) {
  const std::size_t n = c.range(0, c.tier(4, 9));
  const bool apply = c.flip();
  const bool lvalue = c.flip();
  const int count = c.range(0, 3);
  c.shard();
  c.note(apply ? "apply" : "generate", " with ", count, " arguments on ", n, " elements");
  Apply<C> a(c, n);
  a.apply = apply;
  a.lvalue = lvalue;
  a.with(count);
  std::vector<typename Apply<C>::T> out(a.x.begin(), a.x.end());
  c.outcome(out);
}

// Every size
template <typename C>
void fillSizes(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  const auto al = Alpha12<T>::values();
  const std::size_t n = pickDenseSize(c, 70, 1100, c.tier(1, 4));
  c.shard();
  Box12<C> b(n);
  C& x = b.value;
  c.note("size ", n);
  for (const T v : al) {
    x.fill(v);
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, strictly12(T(x[i]), v), "fill: element", i, "is", x[i], "instead of", v);
    }
  }
  T v = al[3];
  x.range(v, al[1]);
  for (std::size_t i = 0; i < n; ++i, v += al[1]) {
    EXPECT(c, x[i] == v, "range: element", i, "is", x[i], "instead of", v);
  }
  for (const auto& bounds : {std::make_pair(al[2], al[4]), std::make_pair(al[5], al[0]), std::make_pair(al[1], al[1])}) {
    const T min = bounds.first, max = bounds.second;
    x.linspace(min, max);
    if (n == 1) {
      EXPECT(c, x[0] == min || x[0] == max, "linspace of size 1:", x[0], "for", min, max);
    } else if (n > 1) {
      EXPECT(c, x[0] == min && x[n - 1] == max, "linspace of size", n, "from", min, "to", max, "is", x[0], "to", x[n - 1]);
      using S = typename TypeTraits<std::decay_t<decltype(wide(min))>>::Scalar;
      for (std::size_t i = 1; i + 1 < n; ++i) {
        const auto exact = wide(min) + (wide(max) - wide(min)) * S(i) / S(n - 1);
        EXPECT(c, std::abs(wide(T(x[i])) - exact) <= Alpha12<T>::tolerance(min, max), "linspace: element", i, "is", x[i], "instead of", exact);
      }
    }
  }
  c.step(6);
  b.guards(c);
  c.outcome(n);
}
// Integers beyond the precision of floating point types, and the extremes
template <typename C>
void far(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  using L = std::numeric_limits<T>;
  const T mid = T(L::max() / 2 + 1);
  const std::vector<T> bounds {L::min(), T(L::min() + 9), T(0), T(mid - 1), T(mid + 12), T(L::max() - 24), L::max()};
  const std::size_t n = c.range(0, c.tier(13, 40));
  const T min = c.of(bounds);
  c.shard();
  const T max = c.of(bounds);
  Box12<C> b(n);
  C& x = b.value;
  c.note("size ", n, " from ", +min, " to ", +max);
  x.fill(min);
  for (std::size_t i = 0; i < n; ++i) {
    EXPECT(c, x[i] == min, "fill: element", i, "is", x[i]);
  }
  x.linspace(min, max);
  if (n > 0) {
    EXPECT(c, x[n - 1] == max || (n == 1 && x[0] == min), "linspace ends at", x[n - 1], "instead of", max);
  }
  for (std::size_t i = 0; i + 1 < n; ++i) {
    const __int128 scaled = ((__int128)x[i] - min) * (__int128)(n - 1) - ((__int128)max - min) * (__int128)i; // Deviation times n - 1
    EXPECT(c, (scaled < 0 ? -scaled : scaled) <= (i == 0 ? 0 : 2 * __int128(n - 1)), "linspace: element", i, "is", x[i], "deviates by", (long double)scaled / (n - 1));
  }
  for (int s : {1, 3, -1, -2}) { // As far as there is no overflow
    const __int128 last = (__int128)min + (__int128)s * (__int128)n;
    if (last < L::min() || last > L::max() || (s < 0 && not L::is_signed)) {
      continue;
    }
    x.range(min, T(s));
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, (__int128)x[i] == (__int128)min + s * (__int128)i, "range: element", i, "is", x[i]);
    }
  }
  c.step(3);
  b.guards(c);
  c.outcome(n);
}

template <typename C>
void applySizes(mc::Ctx& c) {
  const std::size_t n = pickDenseSize(c, 70, 1100, c.tier(1, 4));
  const bool apply = c.flip();
  const bool lvalue = c.flip();
  const int count = c.range(0, 2);
  c.shard();
  c.note(apply ? "apply" : "generate", " with ", count, " arguments on ", n, " elements");
  Apply<C> a(c, n);
  a.apply = apply;
  a.lvalue = lvalue;
  a.with(count);
  c.outcome(n);
}
#endif
