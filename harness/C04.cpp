// C04: box arithmetic and surround boxes
#include "util.hpp"
using namespace Litl;

struct RefBox {
  Coord f, b;
};
template <Index N>
Box<N> real(const RefBox& r) {
  return Box<N>(pos<N>(r.f), pos<N>(r.b));
}
template <Index N>
void same(mc::Ctx& c, const Box<N>& got, const RefBox& ref, const char* what) {
  c.step();
  c.eq(got.front(), ref.f, what);
  c.eq(got.back(), ref.b, what);
}

// Properties and operators
template <Index N>
void operators(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 4) : N;
  RefBox r;
  for (Index i = 0; i < dim; ++i) {
    r.f.push_back(dim < 4 ? c.range(-2, 2) : dim == 4 ? c.range(-1, 0) : i - 2);
    r.b.push_back(r.f.back() + (dim > 5 && i % 2 == 0 ? i / 2 : c.range(-1, dim < 3 ? 3 : 1)));
  }
  c.shard();
  // Operand: a margin/box, a shift and a scalar
  RefBox m;
  Coord v;
  for (Index i = 0; i < dim; ++i) {
    m.f.push_back(dim < 3 || (i == 0 && dim < 6) ? c.range(-2, 1) : -1 - i);
    m.b.push_back(dim < 3 || (i == 1 && dim < 6) ? c.range(-1, 2) : 2 + i);
    v.push_back(m.f.back() * 3 - i);
  }
  const Index s = c.range(-1, 1) * 5 + 1;
  c.note("box=", r.f, "-", r.b, " margin=", m.f, "-", m.b, " shift=", v, " scalar=", s);
  const auto box = real<N>(r);
  const auto margin = real<N>(m);
  const auto shift = pos<N>(v);
  // Properties
  EXPECT_EQ(c, box.dimension(), dim);
  Coord shape;
  for (Index i = 0; i < dim; ++i) {
    shape.push_back(r.b[i] - r.f[i] + 1);
    EXPECT_EQ(c, box.length(i), shape[i]);
  }
  EXPECT_EQ(c, box.shape(), shape);
  EXPECT_EQ(c, box.size(), product(shape));
  EXPECT_EQ(c, box.template length<0>(), shape[0]);
  // New instances
  const RefBox grown {plus(r.f, m.f), plus(r.b, m.b)}, shrunk {plus(r.f, m.f, -1), plus(r.b, m.b, -1)};
  const RefBox moved {plus(r.f, v), plus(r.b, v)}, back {plus(r.f, v, -1), plus(r.b, v, -1)};
  const RefBox up {plus(r.f, s), plus(r.b, s)}, down {plus(r.f, -s), plus(r.b, -s)};
  same(c, box + margin, grown, "box + margin");
  same(c, box - margin, shrunk, "box - margin");
  same(c, box + shift, moved, "box + shift");
  same(c, shift + box, moved, "shift + box");
  same(c, box - shift, back, "box - shift");
  same(c, box + s, up, "box + scalar");
  same(c, s + box, up, "scalar + box");
  same(c, box - s, down, "box - scalar");
  same(c, (box + margin) - margin, r, "(box + margin) - margin");
  same(c, (box + shift) - shift, r, "(box + shift) - shift");
  {
    auto b = box;
    same(c, +b, r, "+box");
    RefBox neg {r.f, r.b};
    for (auto* e : {&neg.f, &neg.b}) {
      for (auto& x : *e) {
        x = -x;
      }
    }
    same(c, -b, neg, "-box");
    same(c, b, r, "operand of unary operators");
  }
  // In place: the target is returned and modified, operands are not
#define INPLACE(expr, ref) \
  { \
    auto b = box; \
    auto& ret = (expr); \
    same(c, b, ref, #expr); \
    EXPECT(c, &ret == &b); \
  }
  INPLACE(b += margin, grown)
  INPLACE(b -= margin, shrunk)
  INPLACE(b += shift, moved)
  INPLACE(b -= shift, back)
  INPLACE(b += s, up)
  INPLACE(b -= s, down)
  INPLACE(++b, (RefBox {plus(r.f, 1), plus(r.b, 1)}))
  INPLACE(--b, (RefBox {plus(r.f, -1), plus(r.b, -1)}))
  {
    auto b = box;
    b += b; // Aliased operand
    same(c, b, RefBox {plus(r.f, r.f), plus(r.b, r.b)}, "b += b");
    b = box;
    b -= b;
    same(c, b, RefBox {plus(r.f, r.f, -1), plus(r.b, r.b, -1)}, "b -= b");
    b = box;
    b += b.front();
    same(c, b, RefBox {plus(r.f, r.f), plus(r.b, r.f)}, "b += b.front()");
    b = box;
    b -= b.front();
    same(c, b, RefBox {Coord(dim, 0), plus(r.b, r.f, -1)}, "b -= b.front()");
    b = box;
    b -= b.back();
    same(c, b, RefBox {plus(r.f, r.b, -1), Coord(dim, 0)}, "b -= b.back()");
    b = box;
    b += b.back()[0];
    same(c, b, RefBox {plus(r.f, r.b[0]), plus(r.b, r.b[0])}, "b += b.back()[0]");
  }
  for (Index axis = 0; axis < dim; ++axis) {
    RefBox flat = r;
    flat.b[axis] = flat.f[axis];
    same(c, project(box, axis), flat, "project(box, axis)");
    INPLACE(b.project(axis), flat)
    if (axis == 0) { // By default
      same(c, project(box), flat, "project(box)");
      INPLACE(b.project(), flat)
    }
  }
  same(c, box, r, "left operand");
  same(c, margin, m, "right operand");
  EXPECT_EQ(c, shift, v);
  // Comparison: different if any coordinate is
  EXPECT(c, box == real<N>(r));
  EXPECT(c, !(box != real<N>(r)));
  for (Index i = 0; i < 2 * dim; ++i) {
    RefBox o = r;
    (i < dim ? o.f[i] : o.b[i - dim]) += 1;
    EXPECT(c, !(box == real<N>(o)));
    EXPECT(c, box != real<N>(o));
    c.step();
  }
  // Named constructors
  same(c, Box<N>::fromShape(pos<N>(r.f), pos<N>(shape)), r, "fromShape");
  same(c, Box<N>::fromCenter(s, pos<N>(r.f)), RefBox {plus(r.f, -s), plus(r.f, s)}, "fromCenter");
  c.outcome(shape);
  c.state(mc::mix(mc::hashOf(r.f), mc::hashOf(r.b)));
}

// Surrounding boxes tile the margin
template <Index N>
void surrounding(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 4) : N;
  RefBox r, m;
  for (Index i = 0; i < dim; ++i) {
    r.f.push_back(i == 0 ? c.range(-1, 1) : i - 1);
    r.b.push_back(r.f.back() + (dim < 5 ? c.range(0, dim < 3 ? 3 : 1) : i % 2));
  }
  c.shard();
  for (Index i = 0; i < dim; ++i) {
    m.f.push_back(-c.range(0, dim < 4 ? c.tier(2, 3) : 1));
    m.b.push_back(c.range(0, dim < 4 ? c.tier(2, 3) : 1));
  }
  c.note("box=", r.f, "-", r.b, " margin=", m.f, "-", m.b);
  const auto box = real<N>(r);
  const auto margin = real<N>(m);
  const auto out = box.surround(margin);
  c.step();
  same(c, box, r, "box");
  same(c, margin, m, "margin");
  // Count how many boxes each position of a wider region belongs to
  const Coord lo = plus(plus(r.f, m.f), -1), hi = plus(plus(r.b, m.b), 1);
  const Coord span = plus(plus(hi, lo, -1), 1);
  std::vector<int> count(product(span), 0);
  auto add = [&](const Box<N>& b) {
    const auto f = coord<N>(b.front()), e = coord<N>(b.back());
    for (Index i = 0; i < dim; ++i) {
      EXPECT(c, f[i] <= e[i], "box", f, e, "is empty");
      EXPECT(c, f[i] >= lo[i] + 1 && e[i] <= hi[i] - 1, "box", f, e, "is outside of the grown box");
    }
    for (const auto& p : boxPositions(f, e)) {
      ++count[offsetOf(span, plus(p, lo, -1))];
    }
    c.step();
  };
  add(box);
  for (const auto& b : out) {
    add(b);
  }
  for (const auto& p : boxPositions(lo, hi)) {
    bool in = true;
    for (Index i = 0; i < dim; ++i) {
      in = in && p[i] > lo[i] && p[i] < hi[i];
    }
    EXPECT(c, count[offsetOf(span, plus(p, lo, -1))] == in, "position", p, "is covered", count[offsetOf(span, plus(p, lo, -1))], "times");
  }
  c.outcome(out.size());
  c.state(mc::mix(mc::hashOf(m.f), mc::hashOf(m.b)));
}

template <typename T, Index N>
void clampPositions(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 4) : N;
  RefBox r;
  for (Index i = 0; i < dim; ++i) {
    r.f.push_back(dim < 4 ? c.range(-1, 1) : i - 1);
    r.b.push_back(r.f.back() + (dim > 5 && i % 2 ? 0 : c.range(0, dim < 3 ? 2 : 1)));
  }
  c.shard();
  c.note("box=", r.f, "-", r.b);
  const auto box = real<N>(r);
  const Coord shape = plus(plus(r.b, r.f, -1), 1);
  const T half = std::is_integral<T>::value ? T(0) : T(.5);
  for (const auto& q : boxPositions(plus(r.f, -2), plus(r.b, 2))) {
    Vector<T, N> in = Vector<T, N>(T(dim)), out(in), shifted(in), inShape(in);
    for (Index i = 0; i < dim; ++i) {
      in[i] = q[i] + half;
      out[i] = in[i] < r.f[i] ? r.f[i] : in[i] > r.b[i] ? r.b[i] : in[i];
      shifted[i] = in[i] - r.f[i];
      inShape[i] = shifted[i] < 0 ? 0 : shifted[i] > shape[i] - 1 ? shape[i] - 1 : shifted[i];
    }
    const auto keep = in;
    c.eq(clamp(in, box), out, "clamp(position, box)");
    c.eq(clamp(shifted, pos<N>(shape)), inShape, "clamp(position, shape)");
    c.eq(in, keep, "clamped position");
    c.step(2);
  }
  c.outcome(shape);
}

TINSTANCE(operators, 1);
TINSTANCE(operators, 2);
TINSTANCE(operators, 3);
TINSTANCE(operators, 4);
TINSTANCE(operators, 5);
TINSTANCE(operators, 6);
TINSTANCE(operators, 7);
TINSTANCE(operators, -1);
TINSTANCE(surrounding, 1);
TINSTANCE(surrounding, 2);
TINSTANCE(surrounding, 3);
TINSTANCE(surrounding, 4);
TINSTANCE(surrounding, 5);
TINSTANCE(surrounding, -1);
TINSTANCE(clampPositions, Index, 1);
TINSTANCE(clampPositions, Index, 2);
TINSTANCE(clampPositions, Index, 3);
TINSTANCE(clampPositions, Index, 4);
TINSTANCE(clampPositions, Index, 5);
TINSTANCE(clampPositions, Index, 6);
TINSTANCE(clampPositions, Index, -1);
TINSTANCE(clampPositions, double, 1);
TINSTANCE(clampPositions, double, 2);
TINSTANCE(clampPositions, double, 3);
TINSTANCE(clampPositions, double, 4);
TINSTANCE(clampPositions, double, 5);
TINSTANCE(clampPositions, double, -1);
