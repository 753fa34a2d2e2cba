// C06: slices and sections
#include "util.hpp"
using namespace Litl;

template <typename T>
struct Parent {
  std::vector<T> model;
  template <typename TRaster>
  explicit Parent(TRaster& r) {
    for (std::size_t i = 0; i < r.size(); ++i) {
      r.data()[i] = T(i + 1);
      model.push_back(T(i + 1));
    }
  }
  template <typename TRaster>
  void same(mc::Ctx& c, const TRaster& r, const char* what) {
    for (std::size_t i = 0; i < model.size(); ++i) {
      EXPECT(c, r.data()[i] == model[i], what, "changed the parent pixel at offset", i);
    }
  }
};

// The view designates exactly the parent's pixels from front, with the given shape (trailing flat axes dropped)
template <typename TParent, typename TView, typename T>
void aliases(mc::Ctx& c, TParent& r, TView& v, const Coord& s, const Coord& front, const Coord& viewShape, Parent<T>& parent, bool write) {
  constexpr Index M = TView::Dimension;
  EXPECT_EQ(c, v.shape(), viewShape);
  EXPECT_EQ(c, v.size(), std::size_t(product(viewShape)));
  EXPECT_EQ(c, v.dimension(), Index(viewShape.size()));
  Index i = 0;
  for (const auto& q : shapePositions(viewShape)) {
    Coord p = front;
    for (std::size_t a = 0; a < q.size(); ++a) {
      p[a] += q[a];
    }
    const Index o = offsetOf(s, p);
    EXPECT(c, &v[pos<M>(q)] == r.data() + o, "view position", q, "must be parent position", p);
    EXPECT(c, &v[i] == r.data() + o);
    EXPECT(c, v[pos<M>(q)] == parent.model[o]);
    if (write) {
      const_cast<T&>(v[pos<M>(q)]) = parent.model[o] = T(50 + i);
      parent.same(c, r, "writing through the view");
      const_cast<T&>(r[o]) = parent.model[o] = T(90 - i);
      EXPECT(c, v[pos<M>(q)] == T(90 - i), "write to the parent seen through the view");
    }
    c.step(3);
    ++i;
  }
  parent.same(c, r, "reading");
}

template <Index M>
bool contiguous(const Coord& s, const Coord& f, const Coord& b) {
  for (Index i = 0; i < Index(s.size()); ++i) {
    if (i < M - 1 && (f[i] != 0 || b[i] != s[i] - 1)) {
      return false;
    }
    if (i >= M && f[i] != b[i]) {
      return false;
    }
  }
  return true;
}

template <typename TRaster, Index M>
void sliceOne(mc::Ctx& c, const Coord& s, const Coord& f, const Coord& b, bool mut) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  TRaster r(pos<N>(s));
  const TRaster& k = r;
  Parent<T> parent(r);
  const Box<N> region(pos<N>(f), pos<N>(b));
  const bool ok = contiguous<M>(s, f, b);
  EXPECT(c, k.template isContiguous<M>(region) == ok, "contiguity of", f, b, "for dimension", M);
  c.step();
  if (!ok) {
    c.throws<Exception>([&] {
      k.template slice<M>(region);
    }, "constant slice of a non-contiguous region");
    c.throws<Exception>([&] {
      r.template slice<M>(region);
    }, "slice of a non-contiguous region");
    parent.same(c, r, "refused slice");
    return;
  }
  Coord shape(f.begin(), f.begin() + M);
  for (Index i = 0; i < M; ++i) {
    shape[i] = b[i] - f[i] + 1;
  }
  if (mut) {
    auto v = r.template slice<M>(region);
    aliases(c, r, v, s, f, shape, parent, true);
  } else {
    const auto v = k.template slice<M>(region);
    aliases(c, k, v, s, f, shape, parent, false);
  }
}

template <typename TRaster, Index... Ms>
void slices(mc::Ctx& c) {
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? Index(sizeof...(Ms)) : N;
  const Coord s = pickShape(c, dim, 1, dim <= 3 ? c.tier(4, 5) : dim == 4 ? c.tier(3, 4) : 2);
  c.shard();
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    f.push_back(c.range(0, s[i] - 1));
    b.push_back(c.range(f[i], s[i] - 1));
  }
  const bool mut = c.flip();
  c.note("shape=", s, " region=", f, "-", b, " mutable=", mut);
  const bool done[] = {(sliceOne<TRaster, Ms>(c, s, f, b, mut), true)...};
  (void)done;
  c.outcome(f);
  c.state(mc::mix(mc::hashOf(s), mc::mix(mc::hashOf(f), mc::hashOf(b))));
}

// Regions which are empty or partly outside of the domain along one axis, where the requested dimension needs a full span or a flat axis: refused
template <typename TRaster, Index... Ms>
void refusals(mc::Ctx& c) {
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? Index(sizeof...(Ms)) : N;
  const Coord s = pickShape(c, dim, 1, dim <= 3 ? 3 : 2);
  c.shard();
  Coord f, b;
  for (Index i = 0; i < dim; ++i) { // Contiguous for some dimension
    const bool flat = c.flip();
    f.push_back(flat ? c.range(0, s[i] - 1) : 0);
    b.push_back(flat ? f[i] : s[i] - 1);
  }
  const Index axis = c.range(0, dim - 1);
  switch (c.pick(3)) {
    case 0: // Empty
      b[axis] = f[axis] - 1;
      break;
    case 1:
      ++f[axis];
      ++b[axis];
      break;
    case 2:
      --f[axis];
      --b[axis];
  }
  c.note("shape=", s, " region=", f, "-", b);
  const auto one = [&](auto m) {
    constexpr Index M = decltype(m)::value;
    // Nothing is asked about the axes where any span or any flat position does
    const bool spans = axis < M - 1;
    const bool flat = axis >= M && f[axis] == b[axis];
    if (axis == M - 1 || flat || (spans && f[axis] >= 0 && b[axis] < s[axis])) {
      return;
    }
    if (!contiguous<M>(s, f, b)) {
      sliceOne<TRaster, M>(c, s, f, b, true);
    }
  };
  const bool done[] = {(one(std::integral_constant<Index, Ms>()), true)...};
  (void)done;
  c.outcome(f);
}

// Sections and sections of sections
template <typename TRaster>
void sections(mc::Ctx& c) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(2, 4) : N;
  const Coord s = pickShape(c, dim, 1, dim <= 3 ? 4 : dim == 4 ? 3 : 2);
  const Index last = dim - 1;
  const Index f = c.range(0, s[last] - 1);
  const Index b = c.range(f, s[last] - 1);
  c.shard();
  c.note("shape=", s, " front=", f, " back=", b);
  TRaster r(pos<N>(s));
  const TRaster& k = r;
  Parent<T> parent(r);
  Coord front(dim, 0), shape = s;
  front[last] = f;
  shape[last] = b - f + 1;
  {
    const auto v = k.section(f, b);
    aliases(c, k, v, s, front, shape, parent, false);
  }
  auto v = r.section(f, b);
  aliases(c, r, v, s, front, shape, parent, true);
  // Nested section of the section
  for (Index g = 0; g < shape[last]; ++g) {
    for (Index e = g; e < shape[last]; ++e) {
      Coord ff = front, ss = shape;
      ff[last] += g;
      ss[last] = e - g + 1;
      auto w = v.section(g, e);
      aliases(c, r, w, s, ff, ss, parent, true);
      const auto& kv = v;
      const auto kw = kv.section(g, e);
      aliases(c, r, kw, s, ff, ss, parent, false);
    }
  }
  c.outcome(shape);
  c.state(mc::mix(mc::hashOf(s), f * 8 + b));
}

// Sections of lower dimension, nested down to dimension 1
template <typename TRaster, bool Leaf = TRaster::Dimension == 1>
struct Nest {
  template <typename TTop, typename T>
  static void run(mc::Ctx& c, TTop& top, TRaster& r, const Coord& s, Coord front, const Coord& shape, Parent<T>& parent) {
    const Index last = Index(shape.size()) - 1;
    if (last == 0) {
      return;
    }
    const Index i = c.range(0, shape[last] - 1);
    c.note("section ", i);
    front[last] = i;
    const Coord sub(shape.begin(), shape.begin() + last);
    const auto& kr = r;
    const auto k = kr.section(i);
    aliases(c, top, k, s, front, sub, parent, false);
    auto v = r.section(i);
    aliases(c, top, v, s, front, sub, parent, true);
    Nest<decltype(v)>::run(c, top, v, s, front, sub, parent);
  }
};
template <typename TRaster>
struct Nest<TRaster, true> {
  template <typename... Ts>
  static void run(Ts&&...) {}
};
template <typename TRaster>
void lowerSections(mc::Ctx& c) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(2, 4) : N;
  const Coord s = pickShape(c, dim, 1, dim <= 3 ? 4 : dim == 4 ? 3 : 2);
  c.shard();
  c.note("shape=", s);
  TRaster r(pos<N>(s));
  Parent<T> parent(r);
  Nest<TRaster>::run(c, r, r, s, Coord(dim, 0), s, parent);
  c.outcome(s);
}

// Offsets above 32 bits (the data is not accessed): slices along the first axes and sections
template <Index N>
void huge(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(2, 4) : N;
  const Coord s = pickHugeShape(c, dim);
  c.shard();
  c.note("shape=", s);
  PtrRaster<char, N> r(pos<N>(s), hugeAddress<char>());
  const auto& k = r;
  for (const auto& q : hugePositions(s)) {
    Coord front(dim, 0), back = plus(s, -1);
    for (Index i = 2; i < dim; ++i) {
      front[i] = back[i] = q[i];
    }
    front[1] = q[1];
    const Box<N> region(pos<N>(front), pos<N>(back));
    const auto v = k.template slice<2>(region);
    EXPECT_EQ(c, hugeOffset(v.data()), offsetOf(s, front));
    EXPECT_EQ(c, v.shape(), (Coord {s[0], s[1] - q[1]}));
    EXPECT_EQ(c, hugeOffset(&v[pos<2>({q[0], 0})]), offsetOf(s, front) + q[0]);
    const Index l = q[dim - 1];
    auto w = r.section(l, s[dim - 1] - 1);
    Coord f(dim, 0), shape = s;
    f[dim - 1] = l;
    shape[dim - 1] -= l;
    EXPECT_EQ(c, hugeOffset(w.data()), offsetOf(s, f));
    EXPECT_EQ(c, w.shape(), shape);
    auto u = r.section(l);
    EXPECT_EQ(c, hugeOffset(u.data()), offsetOf(s, f));
    EXPECT_EQ(c, u.shape(), Coord(s.begin(), s.end() - 1));
    c.step(3);
  }
  c.outcome(s);
}

TINSTANCE(slices, Raster<int, 1>, 1);
TINSTANCE(slices, Raster<int, 2>, 1, 2);
TINSTANCE(slices, Raster<short, 3>, 1, 2, 3);
TINSTANCE(slices, AlignedRaster<int, 3>, 1, 2, 3);
TINSTANCE(slices, Raster<int, 4>, 1, 2, 3, 4);
TINSTANCE(slices, Raster<char, 5>, 1, 2, 3, 4, 5);
TINSTANCE(slices, Raster<char, 6>, 2, 4, 5, 6);
TINSTANCE(slices, Raster<int, -1>, 1);
TINSTANCE(slices, Raster<int, -1>, 1, 2);
TINSTANCE(slices, ValRaster<int, -1>, 1, 2, 3);
TINSTANCE(slices, Raster<int, -1>, 1, 2, 3, 4);
TINSTANCE(refusals, Raster<int, 2>, 1, 2);
TINSTANCE(refusals, Raster<int, 3>, 1, 2, 3);
TINSTANCE(refusals, Raster<int, 4>, 1, 2, 3, 4);
TINSTANCE(refusals, Raster<int, -1>, 1, 2, 3);
TINSTANCE(sections, Raster<int, 1>);
TINSTANCE(sections, Raster<char, 2>);
TINSTANCE(sections, Raster<double, 3>);
TINSTANCE(sections, AlignedRaster<int, 4>);
TINSTANCE(sections, Raster<short, 5>);
TINSTANCE(sections, Raster<short, 6>);
TINSTANCE(sections, Raster<int, -1>);
TINSTANCE(lowerSections, Raster<char, 2>);
TINSTANCE(lowerSections, ValRaster<double, 3>);
TINSTANCE(lowerSections, Raster<int, 4>);
TINSTANCE(lowerSections, Raster<int, 5>);
TINSTANCE(lowerSections, Raster<int, 6>);
TINSTANCE(lowerSections, Raster<int, -1>);
TINSTANCE(huge, 2);
TINSTANCE(huge, 3);
TINSTANCE(huge, 4);
TINSTANCE(huge, -1);
