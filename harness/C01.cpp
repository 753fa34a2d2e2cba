// C01: positions map one-to-one to storage
#include "util.hpp"
using namespace Litl;

static constexpr std::size_t CAP = 6;

// Build a raster of each holder kind with values 0, 1, 2... (modulo what T holds) in storage
template <typename TRaster>
struct Maker;
template <typename T, Index N>
struct Maker<Raster<T, N, StdHolder<std::vector<T>>>> {
  std::unique_ptr<Raster<T, N>> r;
  Maker(const Coord& s) : r(new Raster<T, N>(pos<N>(s))) {}
};
template <typename T, Index N>
struct Maker<Raster<T, N, StdHolder<std::valarray<T>>>> {
  std::unique_ptr<ValRaster<T, N>> r;
  Maker(const Coord& s) : r(new ValRaster<T, N>(pos<N>(s))) {}
};
template <typename T, Index N>
struct Maker<Raster<T, N, StdHolder<std::array<T, CAP>>>> {
  std::unique_ptr<ArrRaster<T, CAP, N>> r;
  Maker(const Coord& s) : r(new ArrRaster<T, CAP, N>(pos<N>(s))) {}
};
template <typename T, Index N>
struct Maker<Raster<T, N, PtrHolder<T>>> {
  std::vector<T> data;
  std::unique_ptr<PtrRaster<T, N>> r;
  Maker(const Coord& s) : data(product(s)), r(new PtrRaster<T, N>(pos<N>(s), data.data())) {}
};
template <typename T, Index N>
struct Maker<Raster<T, N, AlignedBuffer<T>>> {
  std::unique_ptr<AlignedRaster<T, N>> r;
  Maker(const Coord& s) : r(new AlignedRaster<T, N>(pos<N>(s))) {}
};

template <typename TRaster, Index N>
void checkLengths(mc::Ctx& c, const TRaster& r, const Coord& s) {
  for (std::size_t i = 0; i < s.size(); ++i) {
    EXPECT_EQ(c, r.length(Index(i)), s[i]);
    EXPECT_EQ(c, shapeStride(r.shape(), Index(i)), product(Coord(s.begin(), s.begin() + i)));
  }
}

template <typename TRaster>
void mapping(mc::Ctx& c, const Coord& s, bool probe) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  c.note("shape=", s);
  Maker<TRaster> m(s);
  TRaster& r = *m.r;
  const TRaster& k = r;
  const Index n = product(s);
  // Geometry
  EXPECT_EQ(c, k.dimension(), Index(s.size()));
  EXPECT_EQ(c, k.shape(), s);
  EXPECT_EQ(c, Index(k.size()), n);
  EXPECT_EQ(c, shapeSize(k.shape()), n);
  EXPECT_EQ(c, k.end() - k.begin(), n);
  checkLengths<TRaster, N>(c, k, s);
  const auto d = k.domain();
  EXPECT_EQ(c, d.front(), Coord(s.size(), 0));
  EXPECT_EQ(c, d.back(), plus(s, -1));
  EXPECT_EQ(c, d.shape(), s);
  EXPECT_EQ(c, d.size(), n);
  c.step(8);
  // Fill through one access path, read through all others
  const auto all = shapePositions(s);
  EXPECT_EQ(c, Index(all.size()), n);
  T* base = r.data();
  EXPECT(c, k.data() == base);
  for (Index i = 0; i < n; ++i) {
    base[i] = Make<T>::value(i + 1);
  }
  Index i = 0;
  for (const auto& q : all) {
    const auto p = pos<N>(q);
    EXPECT_EQ(c, k.index(p), i);
    EXPECT(c, &k[p] == base + i, "position", q);
    EXPECT(c, &r[p] == base + i, "position", q);
    EXPECT(c, &k[i] == base + i);
    EXPECT(c, &r[i] == base + i);
    EXPECT(c, &*(k.begin() + i) == base + i);
    EXPECT(c, &*(r.begin() + i) == base + i);
    EXPECT(c, k[p] == Make<T>::value(i + 1), "value at", q);
    c.step(6);
    ++i;
  }
  // Range-for reaches the pixels in the same order
  i = 0;
  for (const auto& e : k) {
    EXPECT(c, &e == base + i);
    ++i;
  }
  EXPECT_EQ(c, i, n);
  // Write at every position in turn: one and only one pixel changes
  i = 0;
  for (const auto& q : all) {
    r[pos<N>(q)] = Make<T>::value(100);
    for (Index j = 0; j < n; ++j) {
      EXPECT(c, base[j] == Make<T>::value(j <= i ? 100 : j + 1), "after writing at", q, "offset", j);
    }
    c.step();
    ++i;
  }
  // Containment of integral and real positions around the domain
  if (probe) {
    for (const auto& q : boxPositions(Coord(s.size(), -2), plus(s, 1))) {
      EXPECT(c, k.contains(pos<N>(q)) == inside(s, q), "contains", q);
      Vector<double, N> v(double(s.size()));
      for (double shift : {-.25, .25}) {
        bool expected = true;
        for (std::size_t a = 0; a < s.size(); ++a) {
          v[a] = q[a] + shift;
          expected = expected && v[a] >= 0 && v[a] < s[a];
        }
        EXPECT(c, k.contains(v) == expected, "contains real", v);
      }
      c.step(3);
    }
  }
  c.outcome(s);
  c.state(mc::hashOf(s));
}

template <typename TRaster>
void scenario(mc::Ctx& c) {
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(1, c.tier(4, 5)) : N;
  const Index hi = dim <= 2 ? c.tier(5, 7) : dim == 3 ? c.tier(4, 5) : dim == 4 ? c.tier(3, 4) : dim == 5 ? c.tier(2, 3) : 2;
  const Coord s = pickShape(c, dim, dim > 5, hi);
  c.shard();
  mapping<TRaster>(c, s, dim <= 3 || product(s) <= 24);
}
template <typename TRaster>
void arrScenario(mc::Ctx& c) {
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(1, 4) : N;
  const Coord s = pickShape(c, dim, 1, 6);
  if (product(s) != Index(CAP)) {
    c.prune();
  }
  c.shard();
  mapping<TRaster>(c, s, true);
}

// Sizes and offsets above 32 bits (the data is not accessed)
template <Index N>
void huge(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 4) : N;
  const Coord s = pickHugeShape(c, dim);
  c.shard();
  c.note("shape=", s);
  PtrRaster<char, N> r(pos<N>(s), hugeAddress<char>());
  const auto& k = r;
  EXPECT_EQ(c, k.shape(), s);
  EXPECT_EQ(c, k.size(), std::size_t(product(s)));
  EXPECT_EQ(c, shapeSize(k.shape()), product(s));
  EXPECT_EQ(c, k.end() - k.begin(), product(s));
  EXPECT_EQ(c, k.domain().size(), product(s));
  EXPECT_EQ(c, k.domain().shape(), s);
  EXPECT_EQ(c, k.domain().back(), plus(s, -1));
  checkLengths<PtrRaster<char, N>, N>(c, k, s);
  for (const auto& q : hugePositions(s)) {
    const auto p = pos<N>(q);
    const Index o = offsetOf(s, q);
    EXPECT_EQ(c, k.index(p), o);
    EXPECT_EQ(c, hugeOffset(&k[p]), o);
    EXPECT_EQ(c, hugeOffset(&r[p]), o);
    EXPECT_EQ(c, hugeOffset(&r[o]), o);
    EXPECT_EQ(c, hugeOffset(&*(k.begin() + o)), o);
    EXPECT(c, k.contains(p), "contains", q);
    for (Index i = 0; i < dim; ++i) {
      auto out = q;
      out[i] = s[i] + q[i];
      EXPECT(c, !k.contains(pos<N>(out)), "contains", out);
      out[i] = -1 - q[i];
      EXPECT(c, !k.contains(pos<N>(out)), "contains", out);
    }
    c.step(5);
  }
  c.outcome(s);
}

// Compile-time axis lengths (fixed dimension)
SCENARIO(staticLength) {
  const Coord s = pickShape(c, 4, 0, 3);
  c.shard();
  Raster<char, 4> r(pos<4>(s));
  EXPECT_EQ(c, r.length<0>(), s[0]);
  EXPECT_EQ(c, r.length<1>(), s[1]);
  EXPECT_EQ(c, r.length<2>(), s[2]);
  EXPECT_EQ(c, r.length<3>(), s[3]);
  const auto d = r.domain();
  EXPECT_EQ(c, d.template length<1>(), s[1]);
  EXPECT_EQ(c, d.length(2), s[2]);
  EXPECT_EQ(c, (shapeStride<0, 4>(r.shape())), Index(1));
  EXPECT_EQ(c, (shapeStride<2, 4>(r.shape())), s[0] * s[1]);
  EXPECT_EQ(c, (shapeStride<3, 4>(r.shape())), s[0] * s[1] * s[2]);
  EXPECT(c, (Raster<char, 4>::Dimension == 4));
  c.step(9);
}

// Default-constructed rasters are empty
SCENARIO(defaultConstructed) {
  Raster<int, 2> a;
  Raster<int, 3> b;
  Raster<int, -1> v;
  EXPECT_EQ(c, a.size(), std::size_t(0));
  EXPECT_EQ(c, b.size(), std::size_t(0));
  EXPECT_EQ(c, v.size(), std::size_t(0));
  EXPECT(c, a.begin() == a.end());
  EXPECT_EQ(c, a.shape(), (Coord {0, 0}));
  EXPECT_EQ(c, b.shape(), (Coord {0, 0, 0}));
  c.step(3);
}

// A position of the wrong dimension is refused in variable dimension
SCENARIO(variableDimensionMismatch) {
  const Index dim = c.range(1, 4);
  const Index other = c.range(1, 4);
  if (dim == other) {
    c.prune();
  }
  Raster<int, -1> r(pos<-1>(Coord(dim, 2)));
  c.throws<Exception>(
      [&] {
        (void)r.index(pos<-1>(Coord(other, 1)));
      },
      "index with a position of another dimension");
  c.step();
}

// Arrays larger than a byte, or two
template <typename T, std::size_t Size>
void longArray(mc::Ctx& c) {
  const Coord s = c.of(std::vector<Coord> {{Index(Size), 1}, {1, Index(Size)}, {Index(Size) / 4, 4}, {4, Index(Size) / 4}});
  const auto r = std::make_unique<ArrRaster<T, Size, 2>>(pos<2>(s));
  const auto& k = *r;
  EXPECT_EQ(c, r->size(), Size);
  EXPECT_EQ(c, k.size(), Size);
  EXPECT_EQ(c, Index(k.end() - k.begin()), Index(Size));
  EXPECT_EQ(c, Index(r->end() - r->begin()), Index(Size));
  EXPECT(c, &k.back() == k.data() + Size - 1 && &k.at(-1) == &k.back());
  Index i = 0;
  for (const auto& p : shapePositions(s)) {
    if (&(*r)[pos<2>(p)] != k.data() + i || k.index(pos<2>(p)) != i) {
      EXPECT(c, false, "address of", p);
    }
    ++i;
  }
  c.step();
  c.outcome(s);
}
TINSTANCE(longArray, char, 300);
TINSTANCE(longArray, double, 70000);
TINSTANCE(scenario, Raster<char, 1>);
TINSTANCE(scenario, Raster<int, 2>);
TINSTANCE(scenario, Raster<double, 3>);
TINSTANCE(scenario, Raster<std::complex<float>, 3>);
TINSTANCE(scenario, Raster<unsigned short, 4>);
TINSTANCE(scenario, Raster<long, 5>);
TINSTANCE(scenario, Raster<char, 6>);
TINSTANCE(scenario, Raster<float, 7>);
TINSTANCE(scenario, Raster<int, -1>);
TINSTANCE(scenario, ValRaster<int, 3>);
TINSTANCE(scenario, ValRaster<double, -1>);
TINSTANCE(scenario, PtrRaster<short, 2>);
TINSTANCE(scenario, PtrRaster<float, 4>);
TINSTANCE(scenario, PtrRaster<int, -1>);
TINSTANCE(scenario, AlignedRaster<unsigned char, 3>);
TINSTANCE(scenario, AlignedRaster<double, -1>);
TINSTANCE(arrScenario, ArrRaster<int, CAP, 1>);
TINSTANCE(arrScenario, ArrRaster<char, CAP, 2>);
TINSTANCE(arrScenario, ArrRaster<double, CAP, 3>);
TINSTANCE(arrScenario, ArrRaster<int, CAP, -1>);
TINSTANCE(huge, 1);
TINSTANCE(huge, 2);
TINSTANCE(huge, 3);
TINSTANCE(huge, 4);
TINSTANCE(huge, -1);
// The other supported types
TINSTANCE(scenario, AlignedRaster<bool, 2>);
TINSTANCE(scenario, Raster<char, 2>);
TINSTANCE(scenario, Raster<signed char, 2>);
TINSTANCE(scenario, Raster<unsigned short, 2>);
TINSTANCE(scenario, Raster<unsigned, 2>);
TINSTANCE(scenario, Raster<long, 2>);
TINSTANCE(scenario, Raster<unsigned long, 2>);
TINSTANCE(scenario, Raster<long long, 2>);
TINSTANCE(scenario, Raster<unsigned long long, 2>);
TINSTANCE(scenario, Raster<long double, 2>);
TINSTANCE(scenario, Raster<std::complex<float>, 2>);
TINSTANCE(scenario, Raster<std::complex<long double>, 2>);
TINSTANCE(scenario, Raster<std::complex<double>, 2>);
