// C11: pixelwise math functions
#ifndef C11_HPP
#define C11_HPP
#include "util.hpp"

#include <cmath>
using namespace Litl;

template <typename T>
bool strictly(const T& a, const T& b) {
  return (a != a && b != b) || (a == b && std::signbit(double(a)) == std::signbit(double(b)));
}
template <typename T>
bool strictly(const std::complex<T>& a, const std::complex<T>& b) {
  return strictly(a.real(), b.real()) && strictly(a.imag(), b.imag());
}

template <typename C>
void same(mc::Ctx& c, const C& got, const std::vector<typename C::Value>& expected, const char* what) {
  c.step();
  EXPECT(c, got.size() == expected.size(), what, "size");
  for (std::size_t i = 0; i < expected.size(); ++i) {
    EXPECT(c, strictly(got[i], expected[i]), what, ": element", i, "is", got[i], "instead of", expected[i]);
  }
}

template <typename C>
C make(const std::vector<typename C::Value>& v);
template <typename C>
struct Maker {
  static C make(const std::vector<typename C::Value>& v) {
    constexpr Index N = C::Dimension;
    Position<N> p(N == -1 ? 2 : N);
    p.fill(1);
    p[p.size() - 1] = Index(v.size());
    C r(p);
    std::copy(v.begin(), v.end(), r.begin());
    return r;
  }
  static bool shapeOk(const C& r, std::size_t n) {
    Index last = r.shape()[r.shape().size() - 1];
    return last == Index(n) && product(coord<C::Dimension>(r.shape())) == Index(n);
  }
};
template <typename T, Index N>
struct Maker<Vector<T, N>> {
  static Vector<T, N> make(const std::vector<T>& v) {
    return Vector<T, N>(v);
  }
  static bool shapeOk(const Vector<T, N>&, std::size_t) {
    return true;
  }
};

// f is the reference; the two forms are checked, on a copy and on the original
#define UNARY(fn) \
  { \
    V expected; \
    for (const auto& e : va) { \
      expected.push_back(T(std::fn(e))); \
    } \
    C x = a; \
    auto& ret = x.fn(); \
    same(c, x, expected, "a." #fn "()"); \
    EXPECT(c, (const void*)&ret == (const void*)&x); \
    const C y = Litl::fn(a); \
    same(c, y, expected, #fn "(a)"); \
    EXPECT(c, Maker<C>::shapeOk(y, va.size()), "shape of " #fn "(a)"); \
    same(c, a, va, "operand of " #fn "(a)"); \
  }
#define BINARY(fn) \
  { \
    V expected, self; \
    for (std::size_t i = 0; i < va.size(); ++i) { \
      expected.push_back(T(std::fn(va[i], vb[i]))); \
      self.push_back(T(std::fn(va[i], va[i]))); \
    } \
    C x = a; \
    auto& ret = x.fn(b); \
    same(c, x, expected, "a." #fn "(b)"); \
    EXPECT(c, (const void*)&ret == (const void*)&x); \
    same(c, b, vb, "argument of a." #fn "(b)"); \
    const C y = Litl::fn(a, b); \
    same(c, y, expected, #fn "(a, b)"); \
    EXPECT(c, Maker<C>::shapeOk(y, va.size()), "shape of " #fn "(a, b)"); \
    same(c, a, va, "first operand of " #fn "(a, b)"); \
    same(c, b, vb, "second operand of " #fn "(a, b)"); \
    C z = a; \
    z.fn(vb); \
    same(c, z, expected, "a." #fn "(std::vector)"); \
    const C w = Litl::fn(a, vb); \
    same(c, w, expected, #fn "(a, std::vector)"); \
    C u = a; \
    u.fn(u); \
    same(c, u, self, "a." #fn "(a)"); \
    const C v = Litl::fn(a, a); \
    same(c, v, self, #fn "(a, a)"); \
    same(c, a, va, "operand of " #fn "(a, a)"); \
    for (std::size_t k : remarkable(vb.size(), 3)) { \
      V scalar, element; \
      for (std::size_t i = 0; i < va.size(); ++i) { \
        scalar.push_back(T(std::fn(va[i], vb[k]))); \
        element.push_back(T(std::fn(va[i], va[k]))); \
      } \
      C p = a; \
      auto& pret = p.fn(vb[k]); \
      same(c, p, scalar, "a." #fn "(scalar)"); \
      EXPECT(c, (const void*)&pret == (const void*)&p); \
      const C q = Litl::fn(a, vb[k]); \
      same(c, q, scalar, #fn "(a, scalar)"); \
      same(c, a, va, "first operand of " #fn "(a, scalar)"); \
      C r = a; \
      r.fn(r[k]); \
      same(c, r, element, "a." #fn "(a[k])"); \
    } \
  }

template <typename T>
struct Alphabet {
  static std::vector<T> all() {
    const T inf = std::numeric_limits<T>::infinity();
    return {T(0.5), T(-0.), T(0), T(-1), T(1), T(-2.5), T(3), T(1e3), inf, -inf, std::numeric_limits<T>::quiet_NaN(), T(1e-10)};
  }
  // Common values and values at the ends of the type, where intermediate results overflow or vanish
  static std::vector<T> extreme() {
    using L = std::numeric_limits<T>;
    const bool d = L::digits > 30;
    return {T(1), T(-3), T(0), L::max(), L::lowest(), L::min(), -L::denorm_min(), T(d ? 1e200 : 1e30), T(d ? -1e-200 : -1e-30), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(d ? 1e15 : 1e6) + T(.5), T(d ? 4503599627370497.5 : 8388609), T(745), T(-.49999997)};
  }
  static std::vector<T> some() {
    return {T(0.5), T(-2.5), T(-0.), T(0), T(3)};
  }
};

template <typename C>
void allFloating(mc::Ctx& c, const std::vector<typename C::Value>& va, const std::vector<typename C::Value>& vb) {
  using T = typename C::Value;
  using V = std::vector<T>;
  const C a = Maker<C>::make(va), b = Maker<C>::make(vb);
  UNARY(abs)
  UNARY(ceil)
  UNARY(floor)
  UNARY(trunc)
  UNARY(round)
  UNARY(cos)
  UNARY(sin)
  UNARY(tan)
  UNARY(acos)
  UNARY(asin)
  UNARY(atan)
  UNARY(cosh)
  UNARY(sinh)
  UNARY(tanh)
  UNARY(acosh)
  UNARY(asinh)
  UNARY(atanh)
  UNARY(exp)
  UNARY(exp2)
  UNARY(expm1)
  UNARY(log)
  UNARY(log2)
  UNARY(log10)
  UNARY(logb)
  UNARY(ilogb)
  UNARY(log1p)
  UNARY(sqrt)
  UNARY(cbrt)
  UNARY(erf)
  UNARY(erfc)
  UNARY(tgamma)
  UNARY(lgamma)
  BINARY(max)
  BINARY(min)
  BINARY(fdim)
  BINARY(fmod)
  BINARY(atan2)
  BINARY(pow)
  BINARY(hypot)
}

// One dense content for every size
template <typename C>
void sizes(mc::Ctx& c) {
  using T = typename C::Value;
  const std::size_t n = pickDenseSize(c, 40, 300);
  c.shard();
  const auto al = Alphabet<T>::all();
  std::vector<T> va, vb;
  for (std::size_t i = 0; i < n; ++i) {
    va.push_back(al[(i * 5 + i / 12) % 12]);
    vb.push_back(al[(i * 7 + 3 + i / 144) % 12]);
  }
  c.note("size ", n);
  allFloating<C>(c, va, vb);
  c.outcome(n);
}

// Pairs of extreme values, followed by others of the same kind
template <typename C>
void extremes(mc::Ctx& c) {
  using T = typename C::Value;
  const auto al = Alphabet<T>::extreme();
  const int k = int(al.size());
  const int i = c.pick(k);
  c.shard();
  const int j = c.pick(k);
  std::vector<T> va {al[i], al[(i + 2) % k], al[(i + 5) % k]}, vb {al[j], al[(j + 3) % k], al[(j + 1) % k]};
  c.note("a=", va, " b=", vb);
  allFloating<C>(c, va, vb);
  c.outcome(va);
}

template <typename C>
void floating(mc::Ctx& c) {
  using T = typename C::Value;
  using V = std::vector<T>;
  const std::size_t n = C::Dimension == 3 ? 3 : c.range(0, 3);
  const V al = n <= 1 ? Alphabet<T>::all() : n == 2 && c.thorough() ? Alphabet<T>::all() : Alphabet<T>::some();
  const V va = n == 3 ? V {al[c.pick(5)], al[1], al[c.pick(5)]} : c.word(n, al);
  c.shard();
  const V vb = n == 3 ? V {al[c.pick(5)], al[4], al[0]} : c.word(n, al);
  c.note("a=", va, " b=", vb);
  allFloating<C>(c, va, vb);
  c.outcome(va);
  c.state(mc::mix(mc::hashOf(va), mc::hashOf(vb)));
}

// Results which fit in the type only (other conversions are undefined)
template <typename C>
void integral(mc::Ctx& c) {
  using T = typename C::Value;
  using V = std::vector<T>;
  const bool isSigned = std::is_signed<T>::value;
  const std::size_t n = c.range(0, 3);
  const V al = isSigned ? V {T(5), T(-3), T(1), T(2), T(-1)} : V {T(5), T(3), T(1), T(2), T(0)};
  const V va = c.word(n, n == 3 ? V {al[0], al[1], al[4]} : al);
  c.shard();
  const V vb = c.word(n, n == 3 ? V {T(2), T(1), al[1]} : V {T(2), T(1), T(5), al[1]});
  c.note("a=", va, " b=", vb);
  const C a = Maker<C>::make(va), b = Maker<C>::make(vb);
  UNARY(abs)
  UNARY(ceil)
  UNARY(floor)
  UNARY(trunc)
  UNARY(round)
  UNARY(cos)
  UNARY(atan)
  UNARY(exp)
  UNARY(cbrt)
  UNARY(erf)
  BINARY(max)
  BINARY(min)
  BINARY(fdim)
  BINARY(fmod)
  BINARY(atan2)
  BINARY(hypot)
  c.outcome(va);
  c.state(mc::mix(mc::hashOf(va), mc::hashOf(vb)));
}

template <typename C>
void complexes(mc::Ctx& c) {
  using T = typename C::Value;
  using S = typename T::value_type;
  using V = std::vector<T>;
  const std::size_t n = c.range(0, 2);
  const V al {T(1, 2), T(-3, .5), T(0, 0), T(0, -1), T(2, 0), T(-1, -0.), T(-1e3, 4)};
  const V va = c.word(n, al);
  c.shard();
  const V vb = c.word(n, al);
  c.note("a=", va, " b=", vb);
  const C a = Maker<C>::make(va), b = Maker<C>::make(vb);
  UNARY(cos)
  UNARY(sin)
  UNARY(tan)
  UNARY(acos)
  UNARY(asin)
  UNARY(atan)
  UNARY(cosh)
  UNARY(sinh)
  UNARY(tanh)
  UNARY(exp)
  UNARY(log)
  UNARY(log10)
  UNARY(sqrt)
  BINARY(pow)
  {
    C x = a;
    x.abs();
    V expected;
    for (auto e : va) {
      expected.push_back(T(std::abs(e)));
    }
    same(c, x, expected, "a.abs()");
  }
#define TOREAL(fn) \
  { \
    const Raster<S, C::Dimension> r = Litl::fn(a); \
    std::vector<S> expected; \
    for (auto e : va) { \
      expected.push_back(std::fn(e)); \
    } \
    same(c, r, expected, #fn "(a)"); \
    EXPECT(c, r.shape() == a.shape(), "shape of " #fn "(a)"); \
    same(c, a, va, "operand of " #fn "(a)"); \
  }
  TOREAL(real)
  TOREAL(imag)
  TOREAL(abs)
  TOREAL(arg)
  TOREAL(norm)
  c.outcome(va.size());
  c.state(mc::mix(mc::hashOf(va), mc::hashOf(vb)));
}
#endif
