// C05: iterating over balls
#include "LitlRaster/Ball.h"
#include "util.hpp"
using namespace Litl;

// Positions within the radius by exact integer arithmetic (radius in quarters)
static std::vector<Coord> ballPositions(const Coord& center, Index q4, Index p) {
  std::vector<Coord> out;
  const auto power = [p](Index x) {
    return p == 1 ? x : p == 2 ? x * x : x * x * x;
  };
  for (const auto& v : boxPositions(plus(center, -q4 / 4 - 1), plus(center, q4 / 4 + 1))) {
    Index d = 0;
    for (std::size_t i = 0; i < v.size(); ++i) {
      d += power(std::abs(v[i] - center[i]) * 4);
    }
    if (d <= power(q4)) {
      out.push_back(v);
    }
  }
  return out;
}

template <Index N, Index P>
void visits(mc::Ctx& c, const Ball<N, P>& ball, const std::vector<Coord>& ref, const Coord& center, Index q4) {
  const Index D = center.size();
  std::size_t i = 0;
  for (const auto& p : ball) {
    EXPECT(c, i < ref.size(), "iteration goes past the last position, at", p);
    EXPECT_EQ(c, p, ref[i]);
    ++i;
    c.step();
  }
  EXPECT_EQ(c, i, ref.size());
  EXPECT_EQ(c, ball.size(), Index(ref.size()));
  EXPECT_EQ(c, ball.center(), center);
  EXPECT_EQ(c, ball.radius(), q4 / 4.);
  EXPECT_EQ(c, ball.dimension(), D);
  const Index r = q4 / 4;
  EXPECT_EQ(c, ball.box().front(), plus(center, -r));
  EXPECT_EQ(c, ball.box().back(), plus(center, r));
  EXPECT_EQ(c, ball.shape(), Coord(D, 2 * r + 1));
  for (Index k = 0; k < D; ++k) {
    EXPECT_EQ(c, ball.length(k), 2 * r + 1);
  }
  EXPECT_EQ(c, ball.template length<0>(), 2 * r + 1);
}

template <Index N, Index P>
void balls(mc::Ctx& c) {
  const Index D = N == -1 ? 3 : N; // Dimension
  const Index q4 = c.range(0, 4 * (D <= 2 ? c.tier(6, 12) : D == 3 ? c.tier(3, 5) : c.tier(2, 3)) + 3);
  Coord center;
  for (Index i = 0; i < D; ++i) {
    center.push_back(c.range(-1, D == 1 ? 5 : i == 0 ? 2 : 1));
  }
  c.shard();
  c.note("radius=", q4 / 4., " center=", center);
  const auto ref = ballPositions(center, q4, P);
  Ball<N, P> ball(q4 / 4., pos<N>(center));
  visits(c, ball, ref, center, q4);
  if (N > 0 && center == Coord(D, 0)) { // By default
    visits(c, Ball<N, P>(q4 / 4.), ref, center, q4);
  }
  // Iterator operations
  std::size_t i = 0;
  {
    auto it = begin(ball);
    const auto e = end(ball);
    while (it != e) {
      EXPECT(c, i < ref.size());
      EXPECT(c, !(it == e));
      auto copy = it;
      EXPECT_EQ(c, *copy.operator->(), ref[i]);
      const auto old = *it++;
      EXPECT_EQ(c, old, ref[i]);
      EXPECT_EQ(c, *copy, ref[i]);
      EXPECT(c, copy != it && it != copy && not(copy == it) && not(it == copy), "comparison of iterators");
      EXPECT(c, e != copy && not(e == copy), "comparison of the end");
      EXPECT(c, (copy == begin(ball)) == (i == 0) && (begin(ball) != copy) == (i != 0), "comparison with the beginning");
      ++i;
      ++copy;
      EXPECT(c, copy == it);
      EXPECT(c, (copy == e) == (i == ref.size()));
      c.step(4);
    }
    EXPECT_EQ(c, i, ref.size());
  }
  // Shifts
  Coord shift;
  for (Index k = 0; k < D; ++k) {
    shift.push_back(3 - 5 * k);
  }
  auto shifted = [&](const Ball<N, P>& b, const Coord& v, const char* what) {
    std::vector<Coord> moved;
    for (const auto& p : ref) {
      moved.push_back(plus(p, v));
    }
    c.note(what);
    visits(c, b, moved, plus(center, v), q4);
    visits(c, ball, ref, center, q4);
  };
  auto b = ball;
  b += pos<N>(shift);
  shifted(b, shift, "+= position");
  b -= pos<N>(shift);
  EXPECT(c, b == ball);
  EXPECT(c, !(b != ball));
  b -= pos<N>(shift);
  shifted(b, plus(Coord(D, 0), shift, -1), "-= position");
  EXPECT(c, b != ball);
  b = ball;
  b += Index(4);
  shifted(b, Coord(D, 4), "+= scalar");
  b = ball;
  b -= Index(4);
  shifted(b, Coord(D, -4), "-= scalar");
  b = ball;
  ++b;
  shifted(b, Coord(D, 1), "++");
  b = ball;
  --b;
  shifted(b, Coord(D, -1), "--");
  shifted(ball + pos<N>(shift), shift, "ball + position");
  shifted(ball - pos<N>(shift), plus(Coord(D, 0), shift, -1), "ball - position");
  shifted(ball + Index(2), Coord(D, 2), "ball + scalar");
  shifted(ball - Index(2), Coord(D, -2), "ball - scalar");
  b = ball;
  b += b.center();
  shifted(b, center, "+= center");
  b = ball;
  shifted(-b, plus(plus(Coord(D, 0), center, -1), center, -1), "-ball");
  shifted(+b, Coord(D, 0), "+ball");
  EXPECT(c, (Ball<N, P>(q4 / 4. + .25, pos<N>(center)) != ball));
  EXPECT(c, !(Ball<N, P>(q4 / 4. + .25, pos<N>(center)) == ball));
  c.outcome(ref.size());
  c.state(mc::mix(q4, mc::hashOf(center)));
}

// Radii around those of the shells, and far centers
template <Index N, Index P>
void shells(mc::Ctx& c) {
  const Index D = N == -1 ? 2 : N; // Dimension
  const Index k = c.range(1, D == 1 ? c.tier(400, 2000) : D == 2 ? c.tier(150, 600) : c.tier(40, 120)); // The P-th power of the radius
  if (std::pow(k, 1. / P) > (D == 1 ? 60 : D == 2 ? 26 : D == 3 ? 9 : 4)) {
    c.prune();
  }
  const double gap = c.of({1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12});
  const Index where = c.of({Index(0), Index(-7), Index(1000003), (Index(1) << 33) + 1, -(Index(1) << 40) - 3});
  c.shard();
  Coord center;
  for (Index i = 0; i < D; ++i) {
    center.push_back(i == 1 ? -where + 5 : where);
  }
  const double radius = std::pow(double(k), 1. / P) * (1 + gap);
  c.note("power of the radius ", k, " times 1+", gap, " center ", center);
  const Index r = Index(radius);
  const Ball<N, P> ball(radius, pos<N>(center));
  const Index limit = Index(std::floor(k * std::pow(1 + gap, P))); // The P-th power of distances is an integer, and not so close
  auto it = begin(ball);
  const auto e = end(ball);
  Index count = 0;
  for (const auto& v : boxPositions(Coord(D, -r - 1), Coord(D, r + 1))) {
    Index d = 0;
    for (auto x : v) {
      d += P == 1 ? std::abs(x) : P == 2 ? x * x : std::abs(x * x * x);
    }
    if (d <= limit) {
      EXPECT(c, it != e, "iteration stops before", plus(center, v));
      EXPECT_EQ(c, *it, plus(center, v));
      ++it;
      ++count;
    }
  }
  EXPECT(c, it == e, "iteration goes past the last position, at", *it);
  EXPECT_EQ(c, ball.size(), count);
  EXPECT_EQ(c, ball.radius(), radius);
  EXPECT_EQ(c, ball.box().front(), plus(center, -r));
  EXPECT_EQ(c, ball.box().back(), plus(center, r));
  c.step();
  c.outcome(count);
}

// Squared distances above 2^24: no rounding to single precision
SCENARIO(large) {
  const bool first = c.flip();
  c.shard();
  const double radius = std::sqrt((first ? 16785444. : 16777216.) + .5);
  const Index r = Index(radius);
  const Index limit = Index(first ? 16785444 : 16777216);
  const Ball<2, 2> ball(radius, Position<2>({-12, 1000003}));
  auto it = begin(ball);
  const auto e = end(ball);
  for (Index y = -r; y <= r; ++y) {
    Index x = Index(std::sqrt(double(limit - y * y)));
    while (x * x + y * y > limit) {
      --x;
    }
    while ((x + 1) * (x + 1) + y * y <= limit) {
      ++x;
    }
    for (Index k = -x; k <= x; ++k) {
      const auto& p = *it;
      if (p[0] != k - 12 || p[1] != y + 1000003 || it == e) {
        EXPECT(c, false, "position is", p, "instead of", k - 12, y + 1000003);
      }
      ++it;
    }
    c.step();
  }
  EXPECT(c, it == e, "iteration goes past the last position, at", *it);
}

// Lengths which do not fit in 32 bits (no iteration)
template <Index N, Index P>
void wide(mc::Ctx& c) {
  const double radius = c.of({1073741823.5, 1073741824., 2147483648.25, 1099511627776., 1e15});
  const Index centre = c.of({0L, 7L, -(1L << 40)});
  const Coord q(N, centre);
  const Ball<N, P> ball(radius, pos<N>(q));
  const Index r = Index(radius);
  EXPECT_EQ(c, ball.radius(), radius);
  EXPECT_EQ(c, ball.length(), 2 * r + 1);
  EXPECT_EQ(c, ball.length(N - 1), 2 * r + 1);
  EXPECT_EQ(c, ball.template length<0>(), 2 * r + 1);
  EXPECT_EQ(c, coord<N>(ball.shape()), Coord(N, 2 * r + 1));
  EXPECT_EQ(c, coord<N>(ball.box().front()), plus(q, -r));
  EXPECT_EQ(c, coord<N>(ball.box().back()), plus(q, r));
  EXPECT_EQ(c, coord<N>(ball.center()), q);
  c.step();
  c.outcome(r);
}
TINSTANCE(wide, 1, 1);
TINSTANCE(wide, 2, 2);
TINSTANCE(wide, 3, 2);
TINSTANCE(balls, 1, 1);
TINSTANCE(balls, 2, 1);
TINSTANCE(balls, 3, 1);
TINSTANCE(balls, 4, 1);
TINSTANCE(balls, 1, 2);
TINSTANCE(balls, 2, 2);
TINSTANCE(balls, 3, 2);
TINSTANCE(balls, 4, 2);
TINSTANCE(balls, 1, 3);
TINSTANCE(balls, 2, 3);
TINSTANCE(balls, 3, 3);
TINSTANCE(shells, 1, 1);
TINSTANCE(shells, 2, 1);
TINSTANCE(shells, 3, 1);
TINSTANCE(shells, 1, 2);
TINSTANCE(shells, 2, 2);
TINSTANCE(shells, 3, 2);
TINSTANCE(shells, 4, 2);
TINSTANCE(shells, 1, 3);
TINSTANCE(shells, 2, 3);
TINSTANCE(shells, 3, 3);
TINSTANCE(balls, -1, 1);
TINSTANCE(balls, -1, 2);
TINSTANCE(shells, -1, 2);
