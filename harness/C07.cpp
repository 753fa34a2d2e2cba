// C07: subrasters
#include "util.hpp"
using namespace Litl;

template <typename TRaster>
void init(TRaster& r, std::vector<long>& model) {
  for (std::size_t i = 0; i < r.size(); ++i) {
    r.data()[i] = typename TRaster::Value(i + 1);
    model.push_back(long(i + 1));
  }
}

template <typename TRaster>
void unchanged(mc::Ctx& c, const TRaster& r, const std::vector<long>& model, const char* what) {
  for (std::size_t i = 0; i < model.size(); ++i) {
    EXPECT(c, long(r.data()[i]) == model[i], what, ": parent pixel at offset", i, "is", long(r.data()[i]), "instead of", model[i]);
  }
}

// Properties, access and iteration of one view
template <typename TSub, typename TRaster>
void view(mc::Ctx& c, TSub& v, TRaster& r, const Coord& s, const Coord& f, const Coord& b, std::vector<long>& model, bool write) {
  constexpr Index N = TSub::Dimension;
  const Coord shape = plus(plus(b, f, -1), 1);
  const Index n = product(shape);
  EXPECT_EQ(c, v.shape(), shape);
  EXPECT_EQ(c, v.size(), std::size_t(n));
  EXPECT_EQ(c, v.region().front(), f);
  EXPECT_EQ(c, v.region().back(), b);
  EXPECT(c, &v.raster() == &r);
  const auto& k = v;
  EXPECT(c, &k.raster() == &r);
  const auto local = shapePositions(shape);
  long tag = 500;
  auto* base = const_cast<typename std::decay_t<TRaster>::Value*>(r.data());
  for (const auto& q : local) {
    const Index o = offsetOf(s, plus(f, q));
    EXPECT(c, &v[pos<N>(q)] == base + o, "pixel at", q, "of region", f, b);
    EXPECT(c, &k[pos<N>(q)] == base + o, "pixel at", q, "of region", f, b);
    if (write) {
      const_cast<typename std::decay_t<TRaster>::Value&>(v[pos<N>(q)]) = model[o] = ++tag;
      unchanged(c, r, model, "writing through the view");
      base[o] = model[o] = ++tag;
      EXPECT(c, long(k[pos<N>(q)]) == tag, "write to the parent not seen through the view");
    }
    c.step(2);
  }
  // Iteration
  std::vector<Index> offsets;
  for (const auto& q : local) {
    offsets.push_back(offsetOf(s, plus(f, q)));
  }
  const auto e = end(v);
  for (int form : {0, 1}) { // pre-, post-increment
    std::size_t i = 0;
    for (auto it = begin(v); it != e;) {
      EXPECT(c, i < offsets.size(), "iteration goes past the last pixel");
      EXPECT(c, !(it == e));
      EXPECT(c, &*it == base + offsets[i], "iterator is at parent offset", long(&*it - base), "instead of", offsets[i]);
      EXPECT(c, it.operator->() == base + offsets[i]);
      if (form == 0) {
        ++it;
      } else {
        EXPECT(c, long(*it++) == model[offsets[i]], "value of *it++");
      }
      ++i;
      c.step();
    }
    EXPECT_EQ(c, i, offsets.size());
  }
  // The iterators returned by post-increments are as good as others
  if (offsets.size() > 0 && offsets.size() < 20) {
    auto lead = begin(v);
    for (std::size_t start = 0; start < offsets.size(); ++start) {
      auto it = lead++;
      EXPECT(c, (it == lead) == false);
      for (std::size_t k = start; k < offsets.size(); ++k) {
        EXPECT(c, &*it == base + offsets[k], "copy made by it++ at", start, "then gives offset", long(&*it - base), "instead of", offsets[k]);
        ++it;
      }
      EXPECT(c, it == e, "copy made by it++ at", start, "does not end");
      c.step();
    }
  }
  std::size_t i = 0;
  for (auto& x : v) {
    EXPECT(c, i < offsets.size(), "iteration goes past the last pixel");
    EXPECT(c, &x == base + offsets[i]);
    ++i;
    c.step();
  }
  EXPECT_EQ(c, i, offsets.size());
  unchanged(c, r, model, "reading");
}

template <typename TSub, typename TRaster>
void writeIterating(mc::Ctx& c, TSub& v, TRaster& r, const Coord& s, const Coord& f, const Coord& b, std::vector<long>& model) {
  long tag = 900;
  const auto all = boxPositions(f, b);
  for (auto& x : v) {
    x = typename TRaster::Value(++tag);
    c.step();
  }
  tag = 900;
  for (const auto& p : all) {
    model[offsetOf(s, p)] = ++tag;
  }
  unchanged(c, r, model, "writing through iterators");
}

template <typename TRaster>
void regions(mc::Ctx& c) {
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(1, c.tier(3, 4)) : N;
  const Index hi = dim == 1 ? 6 : dim <= 3 ? c.tier(4, 5) : dim == 6 ? 2 : c.tier(2, 3);
  const Coord s = pickShape(c, dim, 1, hi);
  c.shard();
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    f.push_back(c.range(0, s[i] - 1));
    b.push_back(c.range(f[i], s[i] - 1));
  }
  const bool mut = c.flip();
  c.note("shape=", s, " region=", f, "-", b, " mutable=", mut);
  TRaster r(pos<N>(s));
  std::vector<long> model;
  init(r, model);
  const Box<N> region(pos<N>(f), pos<N>(b));
  if (mut) {
    auto v = r.subraster(region);
    view(c, v, r, s, f, b, model, true);
    writeIterating(c, v, r, s, f, b, model);
  } else {
    const TRaster& k = r;
    auto v = k.subraster(region);
    view(c, v, k, s, f, b, model, false);
    const auto kv = k.subraster(region);
    view(c, kv, k, s, f, b, model, true);
  }
  c.outcome(model);
  c.state(mc::mix(mc::hashOf(s), mc::mix(mc::hashOf(f), mc::hashOf(b))));
}

// Histories of operations over two iterators of one view
template <Index N>
void iteratorHistories(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  const Coord s(dim, 3);
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    f.push_back(c.range(0, 1));
    b.push_back(f[i] + c.range(0, 1));
  }
  const int first = c.pick(6);
  c.shard();
  c.note("region=", f, "-", b);
  Raster<int, N> r(pos<N>(s));
  std::vector<long> model;
  init(r, model);
  const Raster<int, N>& k = r;
  const auto v = k.subraster(Box<N>(pos<N>(f), pos<N>(b)));
  std::vector<Index> offsets;
  for (const auto& p : boxPositions(f, b)) {
    offsets.push_back(offsetOf(s, p));
  }
  const std::size_t n = offsets.size();
  using It = decltype(begin(v));
  std::unique_ptr<It> its[2] = {std::unique_ptr<It>(new It(begin(v))), std::unique_ptr<It>(new It(begin(v)))};
  std::size_t at[2] = {0, 0};
  const It e = end(v);
  for (int d = 0; d < c.tier(5, 7); ++d) {
    const int op = d == 0 ? first : c.pick(6);
    const int w = op % 2;
    if (op < 4) {
      if (at[w] == n) {
        c.prune();
      }
      c.note(op < 2 ? "++it" : "it++", w);
      if (op < 2) {
        ++*its[w];
      } else {
        EXPECT(c, long((*(*its[w])++)) == model[offsets[at[w]]], "value of *it++");
      }
      ++at[w];
    } else if (op == 4) {
      c.note("it1 = copy of it0");
      its[1].reset(new It(*its[0]));
      at[1] = at[0];
    } else {
      c.note("it0 = copy of it1, it1 = begin");
      std::unique_ptr<It> copy(new It(*its[1]));
      its[1].reset();
      its[0] = std::move(copy);
      at[0] = at[1];
      its[1].reset(new It(begin(v)));
      at[1] = 0;
    }
    c.step();
    for (int j : {0, 1}) {
      EXPECT(c, (*its[j] == e) == (at[j] == n), "end comparison of iterator", j);
      EXPECT(c, (*its[j] != e) == (at[j] != n), "end comparison of iterator", j);
      EXPECT(c, (e == *its[j]) == (at[j] == n) && (e != *its[j]) == (at[j] != n), "comparison of the end and iterator", j);
      if (at[j] < n) {
        EXPECT(c, &**its[j] == r.data() + offsets[at[j]], "position of iterator", j);
      }
    }
    EXPECT(c, (*its[0] == *its[1]) == (at[0] == at[1]), "comparison of iterators");
    EXPECT(c, (*its[1] == *its[0]) == (at[0] == at[1]), "comparison of iterators");
    EXPECT(c, (*its[0] != *its[1]) == (at[0] != at[1]) && (*its[1] != *its[0]) == (at[0] != at[1]), "comparison of iterators");
    c.state(mc::mix(at[0] * 100 + at[1], mc::mix(mc::hashOf(f), mc::hashOf(b))));
  }
  c.outcome(at[0] * 100 + at[1]);
}

// The subraster of an empty raster, or an empty region, visits nothing
SCENARIO(empty) {
  Coord f {1, 1}, b {1, 1};
  b[0] -= c.range(0, 1);
  b[1] -= c.range(0, 1);
  c.shard();
  Raster<int, 2> r({3, 3});
  std::vector<long> model;
  init(r, model);
  const auto& k = r;
  const auto v = k.subraster(Box<2>(pos<2>(f), pos<2>(b)));
  long n = 0;
  for (auto& x : v) {
    (void)x;
    ++n;
    EXPECT(c, n <= 1, "iteration goes past the last pixel");
    c.step();
  }
  EXPECT_EQ(c, n, long(f == b));
}

// Offsets above 32 bits (the data is not accessed)
template <Index N>
void huge(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickHugeShape(c, dim);
  c.shard();
  c.note("shape=", s);
  PtrRaster<char, N> r(pos<N>(s), hugeAddress<char>());
  const auto& k = r;
  for (const auto& f : hugePositions(s)) {
    Coord b = f;
    for (Index i = 0; i < dim; ++i) {
      b[i] = std::min(f[i] + 1, s[i] - 1);
    }
    const auto all = boxPositions(f, b);
    const Box<N> region(pos<N>(f), pos<N>(b));
    auto v = r.subraster(region);
    const auto kv = k.subraster(region);
    auto it = begin(v);
    auto kit = begin(kv);
    for (const auto& p : all) {
      const Index o = offsetOf(s, p);
      EXPECT(c, it != end(v) && kit != end(kv), "iteration ends before", p);
      EXPECT_EQ(c, hugeOffset(&*it), o);
      EXPECT_EQ(c, hugeOffset(&*kit), o);
      EXPECT_EQ(c, hugeOffset(&v[pos<N>(plus(p, f, -1))]), o);
      ++it;
      ++kit;
      c.step(2);
    }
    EXPECT(c, it == end(v) && kit == end(kv), "iteration goes past the last pixel");
  }
  // Long rows: only the beginning of the iteration
  for (const Index width : {s[0], s[0] - 1}) {
    Coord b = plus(s, Coord(dim, 1), -1);
    Coord f(dim, 0);
    f[0] = s[0] - width;
    const Box<N> region(pos<N>(f), pos<N>(b));
    auto v = r.subraster(region);
    const auto kv = k.subraster(region);
    Index size = 1;
    for (Index i = 0; i < dim; ++i) {
      size *= b[i] - f[i] + 1;
    }
    EXPECT_EQ(c, Index(v.size()), size);
    EXPECT_EQ(c, Index(kv.size()), size);
    EXPECT_EQ(c, coord<N>(v.shape()), plus(plus(b, f, -1), Coord(dim, 1)));
    auto it = begin(v);
    auto kit = begin(kv);
    for (Index i = 0; i < std::min(width, Index(5)); ++i) {
      EXPECT(c, it != end(v) && kit != end(kv), "iteration ends after", i, "pixels");
      EXPECT_EQ(c, hugeOffset(&*it), f[0] + i);
      EXPECT_EQ(c, hugeOffset(&*kit), f[0] + i);
      ++it;
      ++kit;
      c.step(2);
    }
  }
  c.outcome(s);
}

// Long axes
template <Index N>
void wide(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickWideShape(c, dim, {70001, 300});
  Coord f(dim, 0);
  Coord b = plus(s, -1);
  const int kind = c.pick(4);
  for (Index i = 0; i < dim; ++i) { // Shrink the front, the back or both
    if (s[i] > 2) {
      f[i] += kind & 1 ? 1 : 0;
      b[i] -= kind & 2 ? 1 : 0;
    }
  }
  const bool post = c.flip();
  c.shard();
  c.note("shape=", s, " region=", f, " to ", b);
  Raster<int, N> r(pos<N>(s));
  for (std::size_t i = 0; i < r.size(); ++i) {
    r[i] = int(i);
  }
  auto v = r.subraster(Box<N>(pos<N>(f), pos<N>(b)));
  const Index size = product(plus(plus(b, f, -1), 1));
  EXPECT_EQ(c, Index(v.size()), size);
  Coord p = f;
  Index n = 0;
  for (auto it = begin(v), e = end(v); it != e; ++n) {
    EXPECT(c, n < size, "iteration goes past the last pixel");
    const Index o = offsetOf(s, p);
    EXPECT(c, *it == int(o), "pixel", n, "is at offset", *it, "instead of", o);
    if (n % 37 == 0 || n + 3 > size) {
      EXPECT(c, &v[pos<N>(plus(p, f, -1))] == r.data() + o, "pixel", n, "by position");
    }
    *it = -1 - *it;
    if (post) {
      it++;
    } else {
      ++it;
    }
    nextPosition(p, f, b);
    c.step();
  }
  EXPECT_EQ(c, n, size);
  p = Coord(dim, 0);
  for (std::size_t i = 0; i < r.size(); ++i) {
    bool in = true;
    for (Index j = 0; j < dim; ++j) {
      in = in && p[j] >= f[j] && p[j] <= b[j];
    }
    EXPECT(c, r[i] == (in ? -1 - int(i) : int(i)), "parent pixel", p, "is", r[i]);
    nextPosition(p, Coord(dim, 0), plus(s, -1));
  }
  c.outcome(s);
}

TINSTANCE(wide, 1);
TINSTANCE(wide, 2);
TINSTANCE(wide, 3);
TINSTANCE(wide, -1);
TINSTANCE(regions, Raster<int, 1>);
TINSTANCE(regions, Raster<short, 2>);
TINSTANCE(regions, Raster<double, 3>);
TINSTANCE(regions, AlignedRaster<int, 2>);
TINSTANCE(regions, ValRaster<long, 4>);
TINSTANCE(regions, Raster<int, -1>);
TINSTANCE(iteratorHistories, 1);
TINSTANCE(iteratorHistories, 2);
TINSTANCE(iteratorHistories, 3);
TINSTANCE(iteratorHistories, -1);
TINSTANCE(huge, 1);
TINSTANCE(huge, 2);
TINSTANCE(huge, 3);
TINSTANCE(huge, -1);
TINSTANCE(regions, Raster<short, 5>);
TINSTANCE(regions, Raster<int, 6>);
