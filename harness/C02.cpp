// C02: checked access
#include "util.hpp"
using namespace Litl;

template <typename T>
static std::vector<T> snapshot(const T* b, std::size_t n) {
  return std::vector<T>(b, b + n);
}

// All positions around the domain of one shape, const and mutable, by position
template <typename T, Index N>
void byPosition(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, c.tier(4, 5)) : N;
  const Index hi = dim == 1 ? c.tier(9, 20) : dim == 2 ? c.tier(5, 8) : dim == 3 ? c.tier(3, 4) : dim == 4 ? c.tier(2, 3) : 2;
  Coord s = pickShape(c, std::min<Index>(dim, dim > 5 ? 3 : 5), dim > 5, hi);
  while (Index(s.size()) < dim) {
    s.push_back(1 + s.size() % 2);
  }
  const bool mut = c.flip();
  c.shard();
  c.note("shape=", s, " mutable=", mut);
  Raster<T, N> r(pos<N>(s));
  const Raster<T, N>& k = r;
  T* base = r.data();
  const Index n = product(s);
  for (Index i = 0; i < n; ++i) {
    base[i] = Make<T>::value(i + 1);
  }
  auto before = snapshot(base, n);
  Coord lo, up;
  for (auto l : s) {
    lo.push_back(-l - 2);
    up.push_back(l + 1);
  }
  for (const auto& q : boxPositions(lo, up)) {
    bool ok = true;
    Coord w = q;
    for (std::size_t i = 0; i < s.size(); ++i) {
      ok = ok && q[i] >= -s[i] && q[i] < s[i];
      w[i] += q[i] < 0 ? s[i] : 0;
    }
    const T* got = nullptr;
    bool thrown = false;
    try {
      got = mut ? &r.at(pos<N>(q)) : &k.at(pos<N>(q));
    } catch (const OutOfBoundsError&) {
      thrown = true;
    }
    EXPECT(c, thrown == !ok, "(out-of-bounds exception) at position", q, "of shape", s);
    if (ok) {
      EXPECT(c, got == base + offsetOf(s, w), "checked access at", q, "of shape", s, "gave offset", long(got - base));
      if (mut) {
        r.at(pos<N>(q)) = Make<T>::value(77);
        before[offsetOf(s, w)] = Make<T>::value(77);
        EXPECT_EQ(c, snapshot(base, n), before);
        r.at(pos<N>(q)) = before[offsetOf(s, w)] = Make<T>::value(offsetOf(s, w) + 1);
      }
    }
    c.step();
  }
  EXPECT_EQ(c, snapshot(base, n), before);
  c.outcome(s);
  c.state(mc::hashOf(s));
}

// Offsets above 32 bits (the data is not accessed)
template <Index N>
void huge(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickHugeShape(c, dim);
  c.shard();
  c.note("shape=", s);
  PtrRaster<char, N> r(pos<N>(s), hugeAddress<char>());
  const auto& k = r;
  for (const auto& q : hugePositions(s)) {
    const Index o = offsetOf(s, q);
    EXPECT_EQ(c, hugeOffset(&k.at(pos<N>(q))), o);
    EXPECT_EQ(c, hugeOffset(&r.at(pos<N>(plus(q, s, -1)))), o);
    EXPECT_EQ(c, hugeOffset(&k.at(o)), o);
    EXPECT_EQ(c, hugeOffset(&r.at(o - product(s))), o);
    for (Index i = 0; i < dim; ++i) {
      for (Index v : {s[i], s[i] + q[i], -s[i] - 1, -s[i] - 1 - q[i], std::numeric_limits<Index>::max(), std::numeric_limits<Index>::min() + 1}) {
        auto out = q;
        out[i] = v;
        c.throws<OutOfBoundsError>([&] {
          (void)k.at(pos<N>(out));
        }, "position out of a huge domain");
      }
    }
    c.throws<OutOfBoundsError>([&] {
      (void)k.at(product(s) + o);
    }, "index past a huge domain");
    c.throws<OutOfBoundsError>([&] {
      (void)r.at(-product(s) - 1 - o);
    }, "negative index past a huge domain");
    c.step(6);
  }
  c.outcome(s);
}

// Flat indices, for every container kind
template <typename TRaster>
void byIndexImpl(mc::Ctx& c, TRaster& r, Index n, bool mut) {
  using T = typename TRaster::Value;
  const TRaster& k = r;
  T* base = r.data();
  for (Index i = 0; i < n; ++i) {
    base[i] = T(i + 1);
  }
  for (Index i = -2 * n - 3; i <= 2 * n + 2; ++i) {
    const bool ok = i >= -n && i < n;
    const T* got = nullptr;
    bool thrown = false;
    try {
      got = mut ? &r.at(i) : &k.at(i);
    } catch (const OutOfBoundsError&) {
      thrown = true;
    }
    EXPECT(c, thrown == !ok, "(out-of-bounds exception) at index", i, "of size", n);
    if (ok) {
      EXPECT(c, got == base + (i < 0 ? i + n : i), "index", i, "of size", n);
    }
    c.step();
  }
  for (Index i : {std::numeric_limits<Index>::max(), std::numeric_limits<Index>::min() + 1}) {
    c.template throws<OutOfBoundsError>([&] {
      (void)k.at(i);
    }, "extreme index");
  }
  for (Index i = 0; i < n; ++i) {
    EXPECT(c, base[i] == T(i + 1));
  }
}
SCENARIO(byIndexRaster) {
  const Index n = c.range(0, c.tier(12, 40));
  const bool mut = c.flip();
  const int kind = c.pick(3);
  c.note("size=", n, " mutable=", mut, " kind=", kind);
  c.shard();
  if (kind == 0) {
    Raster<int, 1> r(pos<1>({n}));
    byIndexImpl(c, r, n, mut);
  } else if (kind == 1) {
    AlignedRaster<double, 1> r(pos<1>({n}));
    byIndexImpl(c, r, n, mut);
  } else {
    ValRaster<short, -1> r(pos<-1>({n}));
    byIndexImpl(c, r, n, mut);
  }
  c.outcome(n);
}
// A 2D raster can be accessed by flat checked index too, bounded by its size and not by a length
SCENARIO(byIndexOf2D) {
  const Coord s = pickShape(c, 2, 0, c.tier(4, 6));
  const bool mut = c.flip();
  c.shard();
  c.note("shape=", s);
  Raster<int, 2> r(pos<2>(s));
  byIndexImpl(c, r, product(s), mut);
  c.outcome(s);
}
// Coordinate vectors are containers, too
template <Index N>
void byIndexVector(mc::Ctx& c) {
  const Index n = N == -1 ? c.range(1, 5) : N;
  const bool mut = c.flip();
  c.shard();
  Position<N> v(n);
  byIndexImpl(c, v, n, mut);
  c.outcome(n);
}
// A pointer raster reports out-of-bounds, too
SCENARIO(byPositionPtr) {
  const Coord s = pickShape(c, 2, 1, 4);
  c.shard();
  c.note("shape=", s);
  std::vector<int> data(product(s));
  PtrRaster<int, 2> r(pos<2>(s), data.data());
  for (const auto& q : boxPositions({-s[0] - 1, -s[1] - 1}, s)) {
    const bool ok = q[0] >= -s[0] && q[0] < s[0] && q[1] >= -s[1] && q[1] < s[1];
    bool thrown = false;
    try {
      r.at(pos<2>(q)) += 1;
    } catch (const OutOfBoundsError&) {
      thrown = true;
    }
    EXPECT(c, thrown == !ok, "at", q);
    c.step();
  }
  // Every pixel was reached through exactly four equivalent positions
  EXPECT_EQ(c, data, std::vector<int>(data.size(), 4));
}

TINSTANCE(byPosition, int, 1);
TINSTANCE(byPosition, char, 2);
TINSTANCE(byPosition, double, 3);
TINSTANCE(byPosition, int, 4);
TINSTANCE(byPosition, int, -1);
TINSTANCE(byIndexVector, 1);
TINSTANCE(byIndexVector, 3);
TINSTANCE(byIndexVector, -1);
TINSTANCE(huge, 1);
TINSTANCE(huge, 2);
TINSTANCE(huge, 3);
TINSTANCE(huge, -1);
TINSTANCE(byPosition, char, 5);
TINSTANCE(byPosition, short, 6);
