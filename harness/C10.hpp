#ifndef C10_HPP
#define C10_HPP
// C10: pixelwise arithmetic
#include "util.hpp"
using namespace Litl;

template <typename T>
using Vals = std::vector<T>;

// Alphabets: no overflow, no integer division by zero
template <typename T>
struct Alphabet {
  static Vals<T> wide() {
    return std::is_integral<T>::value ? (std::is_signed<T>::value ? Vals<T> {T(7), T(-3), T(1), T(2), T(-1), T(5)} : Vals<T> {T(7), T(3), T(1), T(2), T(200), T(0) + T(5)}) :
                                        Vals<T> {T(7.5), T(-3), T(1), T(0), T(-0.25), T(1e3)};
  }
  static Vals<T> narrow() {
    auto w = wide();
    return {w[0], w[1], w[4]};
  }
};
template <typename S>
struct Alphabet<std::complex<S>> {
  using T = std::complex<S>;
  static Vals<T> wide() {
    return {T(1, 2), T(-3, .5), T(0, 1), T(2, 0), T(-1, -1), T(5, -4)};
  }
  static Vals<T> narrow() {
    return {T(1, 2), T(-3, .5), T(0, 1)};
  }
};

template <typename C>
void same(mc::Ctx& c, const C& got, const Vals<typename C::Value>& expected, const char* what) {
  c.step();
  EXPECT(c, got.size() == expected.size(), what, "size", got.size(), "instead of", expected.size());
  for (std::size_t i = 0; i < expected.size(); ++i) {
    EXPECT(c, mc::same(got[i], expected[i]), what, ": element", i, "is", got[i], "instead of", expected[i]);
  }
}

template <typename C>
struct Maker;
template <typename T, Index N, typename H>
struct Maker<Raster<T, N, H>> {
  static Position<N> shape(std::size_t n) {
    Position<N> p(N == -1 ? 2 : N);
    p.fill(1);
    p[0] = Index(n);
    if (n == 4 && p.size() > 1) {
      p[0] = p[1] = 2;
    }
    return p;
  }
  static Raster<T, N, H> make(const Vals<T>& v) {
    Raster<T, N, H> r(shape(v.size()));
    std::copy(v.begin(), v.end(), r.begin());
    return r;
  }
  static bool shapeOk(const Raster<T, N, H>& r, std::size_t n) {
    return r.shape() == shape(n);
  }
};
template <typename T, Index N>
struct Maker<Vector<T, N>> {
  static Vector<T, N> make(const Vals<T>& v) {
    return Vector<T, N>(v);
  }
  static bool shapeOk(const Vector<T, N>&, std::size_t) {
    return true;
  }
};

template <typename T, typename F>
Vals<T> map2(const Vals<T>& a, const Vals<T>& b, F f) {
  Vals<T> out;
  for (std::size_t i = 0; i < a.size(); ++i) {
    out.push_back(T(f(a[i], b[i])));
  }
  return out;
}

// In-place form with two containers, with itself; new-instance form; operands unchanged
#define VECOP(op) \
  { \
    auto f = [](const T& x, const T& y) { \
      return T(x op y); \
    }; \
    const auto expected = map2<T>(va, vb, f); \
    C x = a; \
    C& ret = (x op##= b); \
    same(c, x, expected, "a " #op "= b"); \
    EXPECT(c, &ret == &x); \
    same(c, b, vb, "operand of a " #op "= b"); \
    C y = a; \
    y op##= y; \
    same(c, y, map2<T>(va, va, f), "a " #op "= a"); \
    const C z = a op b; \
    same(c, z, expected, "a " #op " b"); \
    EXPECT(c, Maker<C>::shapeOk(z, va.size()), "shape of a " #op " b"); \
    same(c, a, va, "left operand of a " #op " b"); \
    same(c, b, vb, "right operand of a " #op " b"); \
    const C w = a op a; \
    same(c, w, map2<T>(va, va, f), "a " #op " a"); \
    const C t = C(a) op C(b); \
    same(c, t, expected, "temporary " #op " temporary"); \
  }
#define SCALOP(op) \
  { \
    auto f = [](const T& x, const T& y) { \
      return T(x op y); \
    }; \
    const Vals<T> vs(va.size(), s); \
    const auto expected = map2<T>(va, vs, f); \
    C x = a; \
    C& ret = (x op##= s); \
    same(c, x, expected, "a " #op "= scalar"); \
    EXPECT(c, &ret == &x); \
    const C z = a op s; \
    same(c, z, expected, "a " #op " scalar"); \
    EXPECT(c, Maker<C>::shapeOk(z, va.size()), "shape of a " #op " scalar"); \
    same(c, a, va, "operand of a " #op " scalar"); \
    const C t = C(a) op s; \
    same(c, t, expected, "temporary " #op " scalar"); \
    for (std::size_t i : remarkable(va.size())) { \
      const Vals<T> vi(va.size(), va[i]); \
      C y = a; \
      y op##= y[i]; \
      same(c, y, map2<T>(va, vi, f), "a " #op "= a[i]"); \
      const C u = a op a[i]; \
      same(c, u, map2<T>(va, vi, f), "a " #op " a[i]"); \
    } \
  }
#define LEFTOP(op) \
  { \
    auto f = [](const T& x, const T& y) { \
      return T(x op y); \
    }; \
    const Vals<T> vs(va.size(), s); \
    const C z = s op a; \
    same(c, z, map2<T>(vs, va, f), "scalar " #op " a"); \
    EXPECT(c, Maker<C>::shapeOk(z, va.size()), "shape of scalar " #op " a"); \
    same(c, a, va, "operand of scalar " #op " a"); \
    for (std::size_t i : remarkable(va.size())) { \
      const C u = a[i] op a; \
      same(c, u, map2<T>(Vals<T>(va.size(), va[i]), va, f), "a[i] " #op " a"); \
    } \
  }

template <bool B>
using If = std::integral_constant<bool, B>;

// Modulo: integers only
template <typename C, typename T = typename C::Value>
void modulo(mc::Ctx& c, const C& a, const C& b, const T& s, const Vals<T>& va, const Vals<T>& vb, If<true>) {
  VECOP(%)
  SCALOP(%)
}
template <typename C, typename... Ts>
void modulo(mc::Ctx&, const C&, const Ts&...) {}
// Products of containers: rasters only
template <typename C, typename T = typename C::Value>
void products(mc::Ctx& c, const C& a, const C& b, const Vals<T>& va, const Vals<T>& vb, If<true>) {
  VECOP(*)
}
template <typename C, typename T = typename C::Value>
void products(mc::Ctx&, const C&, const C&, const Vals<T>&, const Vals<T>&, If<false>) {}
template <typename C, typename T = typename C::Value>
void quotients(mc::Ctx& c, const C& a, const C& b, const Vals<T>& va, const Vals<T>& vb, If<true>) {
  VECOP(/)
}
template <typename C, typename T = typename C::Value>
void quotients(mc::Ctx&, const C&, const C&, const Vals<T>&, const Vals<T>&, If<false>) {}
// Steps: not for complex
template <typename C, typename T = typename C::Value>
void steps(mc::Ctx& c, const C& a, const Vals<T>& va, If<true>) {
  Vals<T> up, down;
  for (auto e : va) {
    up.push_back(T(e + 1));
    down.push_back(T(e - 1));
  }
  C x = a;
  C& r1 = ++x;
  same(c, x, up, "++a");
  EXPECT(c, &r1 == &x);
  x = a;
  C& r2 = --x;
  same(c, x, down, "--a");
  EXPECT(c, &r2 == &x);
  x = a;
  const C o1 = x++;
  same(c, x, up, "a++");
  same(c, o1, va, "value of a++");
  x = a;
  const C o2 = x--;
  same(c, x, down, "a--");
  same(c, o2, va, "value of a--");
}
template <typename C, typename T = typename C::Value>
void steps(mc::Ctx&, const C&, const Vals<T>&, If<false>) {}

template <typename T>
struct IsComplex : std::false_type {};
template <typename T>
struct IsComplex<std::complex<T>> : std::true_type {};
template <typename C>
struct IsRaster : std::false_type {};
template <typename T, Index N, typename H>
struct IsRaster<Raster<T, N, H>> : std::true_type {};

enum { Additive = 1, Products = 2, Quotients = 4, Steps = 8 };

template <typename C>
void allOperators(mc::Ctx& c, const Vals<typename C::Value>& va, const Vals<typename C::Value>& vb, typename C::Value s, int which = 15) {
  using T = typename C::Value;
  const C a = Maker<C>::make(va);
  const C b = Maker<C>::make(vb);
  if (which & Additive) {
    VECOP(+)
    VECOP(-)
    SCALOP(+)
    SCALOP(-)
    LEFTOP(+)
    LEFTOP(-)
  }
  if (which & Products) {
    products(c, a, b, va, vb, IsRaster<C>());
    SCALOP(*)
    LEFTOP(*)
  }
  if (which & Quotients) {
    quotients(c, a, b, va, vb, IsRaster<C>());
    SCALOP(/)
    modulo(c, a, b, s, va, vb, If<std::is_integral<T>::value>());
  }
  if (!(which & Steps)) {
    return;
  }
  steps(c, a, va, If<!IsComplex<T>::value>());
  Vals<T> neg;
  for (auto e : va) {
    neg.push_back(T(-e));
  }
  const C m = -a;
  same(c, m, neg, "-a");
  EXPECT(c, Maker<C>::shapeOk(m, va.size()));
  same(c, a, va, "operand of -a");
  const C p = +a;
  same(c, p, va, "+a");
  same(c, a, va, "operand of +a");
}

template <typename C, std::size_t... Sizes>
void operators(mc::Ctx& c) {
  using T = typename C::Value;
  const std::size_t n = c.of<std::size_t>({Sizes...});
  const auto alphabet = n <= 1 ? Alphabet<T>::wide() : n == 2 ? Alphabet<T>::wide() : Alphabet<T>::narrow();
  const T s = c.of(n <= 1 ? Alphabet<T>::wide() : Alphabet<T>::narrow());
  const auto va = n <= 3 ? c.word(n, alphabet) : Vals<T> {alphabet[0], alphabet[1], alphabet[2], alphabet[0]};
  c.shard();
  const auto vb = c.word(n, alphabet);
  c.note("a=", va, " b=", vb, " s=", s);
  allOperators<C>(c, va, vb, s);
  c.outcome(va);
  c.state(mc::mix(mc::hashOf(va), mc::hashOf(vb)));
}

// Extreme magnitudes
template <typename T, typename Enable = void>
struct Extremes10 { // Complexes
  using S = typename T::value_type;
  static Vals<T> values() {
    const auto max = std::numeric_limits<S>::max();
    const auto inf = std::numeric_limits<S>::infinity();
    return {T(max, 1), T(-max, max), T(inf, 0), T(0, -inf), T(S(.1), S(-.3)), T(S(-0.), S(1e-30)), T(std::numeric_limits<S>::quiet_NaN(), 1), T(S(1) / 3, S(1e30))};
  }
  static bool defined(const T&, const T&, int) {
    return true;
  }
};
template <typename T>
struct Extremes10<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  using L = std::numeric_limits<T>;
  static Vals<T> values() {
    return {L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(-0.), T(0), T(.1), T(1) / 3, T(16777217), T(9007199254740993), 1 + L::epsilon()};
  }
  static bool defined(T, T, int) {
    return true;
  }
};
template <typename T>
struct Extremes10<T, std::enable_if_t<std::is_integral<T>::value>> {
  using L = std::numeric_limits<T>;
  static Vals<T> values() {
    const T half = T(1) << (L::digits / 2);
    Vals<T> out {L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2 + 1), T(half - 1), T(half + 1), T(-half - 1), T(0), T(1), T(-1), T(3)};
    if (L::digits > 53) {
      for (int i = 53; i < 55; ++i) {
        out.push_back((T(1) << (i % L::digits)) + 1);
        out.push_back(-(T(1) << (i % L::digits)) - 1);
      }
    }
    return out;
  }
  static bool fits(__int128 x) {
    return !std::is_signed<T>::value || sizeof(T) < sizeof(int) || (x >= L::min() && x <= L::max());
  }
  static bool defined(T a, T b, int which) {
    const __int128 x = a;
    const __int128 y = b;
    switch (which) {
      case Additive:
        return fits(x + y) && fits(x - y) && fits(y - x) && fits(x + x);
      case Products:
        return fits(x * y) && fits(x * x);
      case Quotients:
        return x != 0 && y != 0 && fits(x / y);
      default:
        return fits(x + 1) && fits(x - 1) && fits(-x);
    }
  }
};

template <typename C>
void extremes(mc::Ctx& c) {
  using T = typename C::Value;
  const T x = c.of(Extremes10<T>::values());
  const T y = c.of(Extremes10<T>::values());
  const int which = 1 << c.pick(4);
  if (!Extremes10<T>::defined(x, y, which)) {
    c.prune();
  }
  c.shard();
  c.note(x, " and ", y, " operators ", which);
  allOperators<C>(c, Vals<T> {x}, Vals<T> {y}, y, which);
  c.outcome(which);
}

// One dense content for every size
template <typename C>
void sizes(mc::Ctx& c) {
  using T = typename C::Value;
  const std::size_t n = pickDenseSize(c);
  c.shard();
  const auto alphabet = Alphabet<T>::wide();
  Vals<T> va, vb;
  for (std::size_t i = 0; i < n; ++i) {
    va.push_back(T(alphabet[(i * 5 + i / 6) % 6]));
    vb.push_back(T(alphabet[(i * 7 + 3 + i / 36) % 6]));
  }
  c.note("size ", n);
  allOperators<C>(c, va, vb, alphabet[3] == T(0) ? alphabet[4] : alphabet[3]);
  c.outcome(n);
}

// Straight-line programs on two variables
template <typename C>
void programs(mc::Ctx& c) {
  using T = typename C::Value;
  const std::size_t n = 2;
  const auto al = Alphabet<T>::narrow();
  Vals<T> m[2] = {{al[0], al[1]}, {al[2], al[0]}};
  C v[2] = {Maker<C>::make(m[0]), Maker<C>::make(m[1])};
  const int depth = int(c.tier(4, 5));
  for (int k = 0; k < depth; ++k) {
    const int op = c.pick(14);
    const int w = c.pick(2);
    if (k == 0) {
      c.shard();
    }
    const int o = 1 - w;
    C &x = v[w], &y = v[o];
    Vals<T>&mx = m[w], &my = m[o];
    const T s = al[1];
    auto scal = [n](T e) {
      return Vals<T>(n, e);
    };
    auto add = [](T p, T q) { return T(p + q); };
    auto sub = [](T p, T q) { return T(p - q); };
    auto mul = [](T p, T q) { return T(p * q); };
    c.note("op", op, " on v", w);
    switch (op) {
      case 0: x += y; mx = map2<T>(mx, my, add); break;
      case 1: x -= y; mx = map2<T>(mx, my, sub); break;
      case 2: x += x; mx = map2<T>(mx, mx, add); break;
      case 3: x -= x[1]; mx = map2<T>(mx, scal(mx[1]), sub); break;
      case 4: x *= s; mx = map2<T>(mx, scal(s), mul); break;
      case 5: x = y - x; mx = map2<T>(my, mx, sub); break;
      case 6: x = s - x; mx = map2<T>(scal(s), mx, sub); break;
      case 7: x = x + y + x; mx = map2<T>(map2<T>(mx, my, add), mx, add); break;
      case 8: x = -y; mx = map2<T>(scal(T(0)), my, sub); break;
      case 9: x += y[0]; mx = map2<T>(mx, scal(my[0]), add); break;
      case 10: x = s * y; mx = map2<T>(scal(s), my, mul); break;
      case 11: y = x++; my = mx; mx = map2<T>(mx, scal(T(1)), add); break;
      case 12: y = --x; mx = map2<T>(mx, scal(T(1)), sub); my = mx; break;
      case 13: (x += y) -= s; mx = map2<T>(map2<T>(mx, my, add), scal(s), sub); break;
    }
    same(c, v[0], m[0], "v0");
    same(c, v[1], m[1], "v1");
    c.state(mc::mix(mc::hashOf(m[0]), mc::hashOf(m[1])));
  }
  c.outcome(m[0]);
}

#endif
