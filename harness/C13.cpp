// C13: comparison, extrema, element access and printing
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <iomanip>
using namespace Litl;

template <typename T>
struct Alpha13 {
  static std::vector<T> values() {
    if (std::is_floating_point<T>::value) {
      return {T(-0.), T(0.), T(-2.5), T(std::numeric_limits<T>::infinity()), T(1e6)};
    }
    return {T(0), T(1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(2)};
  }
};
template <typename S>
struct Alpha13<std::complex<S>> {
  static std::vector<std::complex<S>> values() {
    return {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {-0., 0.}};
  }
};

template <typename T, bool Ordered = std::is_arithmetic<T>::value>
struct Extrema {
  template <typename C>
  static void check(mc::Ctx& c, const C& x, const std::vector<T>& v) {
    if (v.empty()) {
      return;
    }
    std::size_t lo = 0, hi = 0;
    for (std::size_t i = 1; i < v.size(); ++i) {
      if (v[i] < v[lo]) {
        lo = i;
      }
      if (v[i] > v[hi]) {
        hi = i;
      }
    }
    const T* d = x.data();
    EXPECT(c, &x.min() == d + lo, "min() of", v, "is element", &x.min() - d, "instead of", lo);
    EXPECT(c, &x.max() == d + hi, "max() of", v, "is element", &x.max() - d, "instead of", hi);
    const auto mm = x.minmax();
    EXPECT(c, &mm.first == d + lo, "minmax().first of", v, "is element", &mm.first - d, "instead of", lo);
    EXPECT(c, &mm.second == d + hi, "minmax().second of", v, "is element", &mm.second - d, "instead of", hi);
    c.step(3);
  }
};
template <typename T>
struct Extrema<T, false> {
  template <typename C>
  static void check(mc::Ctx&, const C&, const std::vector<T>&) {}
};

template <typename T>
std::string printed(const std::vector<T>& v) {
  std::ostringstream os;
  os << "[";
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (v.size() > 7 && i == 3) {
      os << " ... ";
      i = v.size() - 3;
    } else if (i > 0) {
      os << ", ";
    }
    os << v[i];
  }
  os << "]";
  return os.str();
}

template <typename C, typename T>
void sequenceChecks(mc::Ctx& c, C& x, const std::vector<T>& v) {
  const C& k = x;
  const std::size_t n = v.size();
  EXPECT(c, std::size_t(x.size()) == n, "size", x.size(), "instead of", n);
  EXPECT(c, x.emtpy() == (n == 0));
  const T* d = k.data();
  EXPECT(c, x.data() == d);
  EXPECT(c, k.begin() == d && k.end() == d + n && x.begin() == d && x.end() == d + n && x.cbegin() == d && x.cend() == d + n);
  for (std::size_t i = 0; i < n; ++i) {
    EXPECT(c, &k[i] == d + i && &x[i] == d + i, "element access", i);
    EXPECT(c, mc::same(k[i], v[i]), "element", i, "is", k[i], "instead of", v[i]);
  }
  if (n > 0) {
    EXPECT(c, &k.front() == d && &x.front() == d && &k.back() == d + n - 1 && &x.back() == d + n - 1);
  }
  Extrema<T>::check(c, x, v);
  std::ostringstream os;
  os << k;
  EXPECT_EQ(c, os.str(), printed(v));
  c.step(6);
}

template <typename C>
struct Make13 {
  template <typename T>
  static C make(const std::vector<T>& v) {
    return C(v);
  }
};
template <typename T, Index N, typename H>
struct Make13<Raster<T, N, H>> {
  static Raster<T, N, H> make(const std::vector<T>& v) {
    Position<N> p(N == -1 ? 2 : N);
    p.fill(1);
    p[0] = v.size();
    Raster<T, N, H> r(p);
    std::copy(v.begin(), v.end(), r.begin());
    return r;
  }
};

// All pairs of small sequences: comparison; every sequence: access, extrema
template <typename C>
void pairs(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  const auto alphabet = Alpha13<T>::values();
  const auto a = c.word(c.range(0, c.tier(3, 4)), alphabet);
  c.shard();
  auto b = a;
  const int form = c.pick(4);
  if (form == 0) { // Any other sequence, at most 2 elements
    if (a.size() > 2) {
      c.prune();
    }
    b = c.word(c.range(0, 2), alphabet);
  } else if (form == 1) { // One different element
    if (a.empty()) {
      c.prune();
    }
    b[c.pick(int(a.size()))] = c.of(alphabet);
  } else if (form == 2) { // Prefix or extension
    if (c.flip()) {
      b.push_back(c.of(alphabet));
    } else if (!b.empty()) {
      b.pop_back();
    }
  }
  c.note(a, " and ", b);
  C x = Make13<C>::make(a);
  C y = Make13<C>::make(b);
  sequenceChecks(c, x, a);
  sequenceChecks(c, y, b);
  const C& kx = x;
  const C& ky = y;
  const bool expected = a == b;
  EXPECT(c, (kx == ky) == expected, "==", a, b);
  EXPECT(c, (kx != ky) == !expected, "!=", a, b);
  EXPECT(c, (ky == kx) == expected && (ky != kx) == !expected, "commuted", a, b);
  EXPECT(c, kx == kx && !(kx != kx));
  const C z = x;
  EXPECT(c, z == x && !(z != x));
  c.step(8);
  c.outcome(int(expected));
}

// Long sequences: printing and extrema at every position
template <typename C>
void longer(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  const auto alphabet = Alpha13<T>::values();
  const std::size_t n = c.range(0, c.tier(12, 24));
  std::vector<T> v(n, T(1));
  for (std::size_t i = 0; i < n; ++i) {
    v[i] = T(20) + T(int(i * 7 % 5));
  }
  c.shard();
  if (n > 0) {
    v[c.pick(int(n))] = c.of(alphabet);
    v[c.pick(int(n))] = c.of(alphabet);
  }
  c.note(v);
  C x = Make13<C>::make(v);
  sequenceChecks(c, x, v);
  c.outcome(printed(v));
}

// Rasters: equality needs the same shape
template <Index N, typename HA, typename HB>
void shapes(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickShape(c, dim, 0, 3);
  c.shard();
  const Index dim2 = N == -1 ? c.range(1, 3) : N;
  const Coord t = pickShape(c, dim2, 0, 3);
  std::vector<int> va(product(s)), vb(product(t));
  for (std::size_t i = 0; i < va.size(); ++i) {
    va[i] = int(i);
  }
  for (std::size_t i = 0; i < vb.size(); ++i) {
    vb[i] = int(i);
  }
  if (!vb.empty() && va.size() == vb.size()) {
    const int k = c.pick(int(vb.size()) + 1);
    if (k < int(vb.size())) {
      vb[k] += 1;
    }
  }
  c.note("shapes ", s, " and ", t, " values ", va, " and ", vb);
  Raster<int, N, HA> x(pos<N>(s)); // Possibly with non-owning or aligned holder
  Raster<int, N, HB> y(pos<N>(t));
  std::copy(va.begin(), va.end(), x.begin());
  std::copy(vb.begin(), vb.end(), y.begin());
  const auto& kx = x;
  const auto& ky = y;
  const bool expected = s == t && va == vb;
  EXPECT(c, (kx == ky) == expected, "==");
  EXPECT(c, (kx != ky) == !expected, "!=");
  // Non-owning rasters over the same data
  PtrRaster<int, N> px(pos<N>(s), va.data());
  PtrRaster<int, N> py(pos<N>(t), vb.data());
  EXPECT(c, (px == py) == expected && (px != py) == !expected, "PtrRaster ==");
  PtrRaster<const int, N> cx(pos<N>(s), va.data());
  PtrRaster<const int, N> cy(pos<N>(t), vb.data());
  EXPECT(c, (cx == cy) == expected && (cx != cy) == !expected, "const PtrRaster ==");
  c.step(6);
  c.outcome(int(expected));
}

// Rasters of different holders and value types
template <typename TA, typename TB>
void mixed(mc::Ctx& c) {
  using T = typename TA::Value;
  using U = typename TB::Value;
  const Index dim = TA::Dimension == -1 ? c.range(1, 3) : TA::Dimension;
  const Coord s = pickShape(c, dim, 0, 2);
  const Index dim2 = TB::Dimension == -1 ? c.range(1, 3) : TB::Dimension;
  const Coord t = pickShape(c, dim2, 0, 2);
  c.shard();
  const std::vector<double> alphabet {0, 1, .5, 44, 300, .1};
  std::vector<T> va(product(s));
  std::vector<U> vb(product(t));
  for (std::size_t i = 0; i < va.size(); ++i) {
    va[i] = static_cast<T>(i % 3);
  }
  for (std::size_t i = 0; i < vb.size(); ++i) {
    vb[i] = static_cast<U>(i % 3);
  }
  if (!va.empty() && va.size() == vb.size()) {
    const int k = c.pick(int(vb.size()));
    va[k] = static_cast<T>(alphabet[c.pick(6)]);
    vb[k] = static_cast<U>(alphabet[c.pick(6)]);
  }
  c.note("shapes ", s, " and ", t, " values ", va, " and ", vb);
  bool expected = s == t;
  for (std::size_t i = 0; expected && i < va.size(); ++i) {
    expected = va[i] == vb[i];
  }
  TA x(pos<TA::Dimension>(s));
  TB y(pos<TB::Dimension>(t));
  std::copy(va.begin(), va.end(), x.begin());
  std::copy(vb.begin(), vb.end(), y.begin());
  const auto& kx = x;
  const auto& ky = y;
  EXPECT(c, (kx == ky) == expected && (ky == kx) == expected, "==");
  EXPECT(c, (kx != ky) == !expected && (ky != kx) == !expected, "!=");
  const PtrRaster<const T, TA::Dimension> px(pos<TA::Dimension>(s), va.data());
  EXPECT(c, (px == ky) == expected && (ky == px) == expected && (px != ky) == !expected && (ky != px) == !expected, "non-owning");
  EXPECT_EQ(c, std::vector<T>(x.begin(), x.end()), va);
  EXPECT_EQ(c, std::vector<U>(y.begin(), y.end()), vb);
  c.step(8);
  c.outcome(int(expected));
}

// Non-owning containers over possibly overlapping parts of the same memory: equality is that of the values
template <typename T>
void views(mc::Ctx& c) {
  const auto alphabet = Alpha13<T>::values();
  const std::vector<T> two(alphabet.begin(), alphabet.begin() + 2);
  const std::size_t n = c.tier(4, 5);
  auto v = c.word(n, two);
  c.shard();
  const std::size_t i = c.range(0, n);
  const std::size_t j = c.range(0, n);
  const std::size_t ni = c.range(0, n - i);
  const std::size_t nj = c.range(0, n - j);
  const std::vector<T> a(v.begin() + i, v.begin() + i + ni);
  const std::vector<T> b(v.begin() + j, v.begin() + j + nj);
  const bool expected = a == b;
  c.note("values ", v, " from ", i, " size ", ni, " and from ", j, " size ", nj);
  const Sequence<T, PtrHolder<T>> x(ni, v.data() + i);
  const Sequence<T, PtrHolder<T>> y(nj, v.data() + j);
  EXPECT(c, (x == y) == expected && (x != y) == !expected && (y == x) == expected, "sequence views");
  const Sequence<T, AlignedBuffer<T>> ax(ni, v.data() + i, 1);
  const Sequence<T, AlignedBuffer<T>> ay(nj, v.data() + j, 1);
  EXPECT(c, (ax == ay) == expected && (ax != ay) == !expected, "aligned sequence views");
  const PtrRaster<T, 1> rx(pos<1>({Index(ni)}), v.data() + i);
  const PtrRaster<T, 1> ry(pos<1>({Index(nj)}), v.data() + j);
  EXPECT(c, (rx == ry) == expected && (rx != ry) == !expected, "1D raster views");
  const PtrRaster<T, 2> hx(pos<2>({Index(ni), 1}), v.data() + i);
  const PtrRaster<T, 2> hy(pos<2>({Index(nj), 1}), v.data() + j);
  EXPECT(c, (hx == hy) == expected && (hx != hy) == !expected, "2D raster views");
  const PtrRaster<T, 2> vy(pos<2>({1, Index(nj)}), v.data() + j);
  const bool same = expected && ni == 1;
  EXPECT(c, (hx == vy) == same && (hx != vy) == !same, "horizontal and vertical views");
  const PtrRaster<const T, 2> kx(pos<2>({Index(ni), 1}), v.data() + i);
  const PtrRaster<const T, 2> ky(pos<2>({Index(nj), 1}), v.data() + j);
  EXPECT(c, (kx == ky) == expected && (kx != ky) == !expected, "constant views");
  c.step(12);
  c.outcome(int(expected));
}

// Every size: equality with one different element, extrema at each remarkable index
template <typename C>
void sizes(mc::Ctx& c) {
  using T = std::decay_t<decltype(std::declval<C>()[0])>;
  const std::size_t n = pickDenseSize(c);
  c.shard();
  std::vector<T> v(n);
  for (std::size_t i = 0; i < n; ++i) {
    v[i] = T(int(20 + i * 7 % 5));
  }
  c.note("size ", n);
  C x = Make13<C>::make(v);
  const C y = x;
  sequenceChecks(c, x, v);
  EXPECT(c, x == y && !(x != y) && y == x);
  for (auto i : remarkable(n, 80)) {
    for (const T e : {T(1), T(100)}) {
      auto w = v;
      w[i] = e;
      x[i] = e;
      EXPECT(c, !(x == y) && x != y && !(y == x) && y != x, "difference at", i);
      Extrema<T>::check(c, x, w);
      c.step(4);
      x[i] = v[i];
    }
  }
  c.outcome(n);
}

using VecH = StdHolder<std::vector<int>>;
using AlignedH = AlignedBuffer<int>;
TINSTANCE(pairs, Raster<int, 1>);
TINSTANCE(pairs, AlignedRaster<double, -1>);
TINSTANCE(pairs, Vector<float, -1>);
TINSTANCE(pairs, Sequence<signed char>);
TINSTANCE(pairs, Raster<std::complex<double>, 2>);
TINSTANCE(pairs, Sequence<unsigned long, StdHolder<std::valarray<unsigned long>>>);
TINSTANCE(longer, Raster<int, 2>);
TINSTANCE(longer, Vector<Index, -1>);
TINSTANCE(longer, Sequence<float>);
TINSTANCE(longer, AlignedRaster<std::complex<float>, 1>);
TINSTANCE(shapes, 2, VecH, VecH);
TINSTANCE(shapes, -1, VecH, VecH);
TINSTANCE(shapes, 2, AlignedH, AlignedH);
TINSTANCE(shapes, 3, VecH, VecH);
TINSTANCE(mixed, Raster<int, 2>, AlignedRaster<int, 2>);
TINSTANCE(mixed, ValRaster<int, 2>, Raster<int, 2>);
TINSTANCE(mixed, Raster<int, 2>, Raster<double, 2>);
TINSTANCE(mixed, Raster<unsigned char, 1>, AlignedRaster<int, 1>);
TINSTANCE(mixed, Raster<float, -1>, Raster<double, -1>);
TINSTANCE(mixed, AlignedRaster<short, 3>, ValRaster<float, 3>);
TINSTANCE(views, int);
TINSTANCE(views, double);
TINSTANCE(views, std::complex<double>);
TINSTANCE(sizes, Raster<int, 2>);
TINSTANCE(sizes, AlignedRaster<double, -1>);
TINSTANCE(sizes, Vector<float, -1>);
TINSTANCE(sizes, Sequence<unsigned char>);
TINSTANCE(sizes, Raster<std::complex<float>, 1>);
// The other supported types
TINSTANCE(pairs, Sequence<char>);
TINSTANCE(pairs, Sequence<unsigned char>);
TINSTANCE(pairs, Sequence<short>);
TINSTANCE(pairs, Sequence<unsigned short>);
TINSTANCE(pairs, Sequence<unsigned>);
TINSTANCE(pairs, Sequence<long>);
TINSTANCE(pairs, Sequence<long long>);
TINSTANCE(pairs, Sequence<unsigned long long>);
TINSTANCE(pairs, Sequence<long double>);
TINSTANCE(pairs, Sequence<std::complex<float>>);
TINSTANCE(pairs, Sequence<std::complex<long double>>);
