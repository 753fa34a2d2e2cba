// C03: iterating over boxes
#include "util.hpp"
using namespace Litl;

template <Index N>
Box<N> makeBox(const Coord& f, const Coord& b) {
  return Box<N>(pos<N>(f), pos<N>(b));
}

// Increment with either operator, the value of the expression being checked:
// pre-increment designates the next position, post-increment the current one
template <typename It>
void checkedIncrement(mc::Ctx& c, It& it, bool post, const std::vector<Coord>& ref, std::size_t& i) {
  if (post) {
    const auto old = *it++;
    EXPECT(c, mc::same(old, ref[i]), "*it++ gives", old, "instead of", ref[i]);
  } else {
    ++it;
  }
  ++i;
  c.step();
}

// Range-for, pre-increment only and post-increment only
template <Index N>
void full(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, c.tier(3, 5)) : N;
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    const Index lo = dim > 6 ? i - 3 : dim > 4 ? c.of<Index>({-1, 2}) : c.of<Index>({0, -1, 2});
    f.push_back(lo);
    b.push_back(lo - 1 + c.range(dim > 4 ? c.tier(1, dim == 5 ? 0 : 1) : dim <= 2 ? -1 : 0, dim <= 2 ? c.tier(5, 7) : dim == 3 ? c.tier(3, 4) : 2));
  }
  c.shard();
  const auto ref = boxPositions(f, b);
  c.note("front=", f, " back=", b);
  const auto box = makeBox<N>(f, b);
  std::size_t i = 0;
  for (const auto& p : box) {
    EXPECT(c, i < ref.size(), "iteration goes past the last position, at", p);
    EXPECT_EQ(c, p, ref[i]);
    ++i;
    c.step();
  }
  EXPECT_EQ(c, i, ref.size());
  const auto e = end(box);
  for (bool post : {false, true}) {
    i = 0;
    auto it = begin(box);
    while (it != e) {
      EXPECT(c, !(it == e));
      EXPECT(c, i < ref.size(), "iteration goes past the last position");
      EXPECT_EQ(c, *it, ref[i]);
      EXPECT_EQ(c, (*it.operator->()), ref[i]);
      checkedIncrement(c, it, post, ref, i);
    }
    EXPECT(c, it == e);
    EXPECT_EQ(c, i, ref.size());
    it.reset();
    EXPECT(c, it == begin(box));
    EXPECT(c, (it == e) == ref.empty());
    if (!ref.empty()) {
      EXPECT_EQ(c, *it, ref[0]);
    }
  }
  EXPECT_EQ(c, box.front(), f);
  EXPECT_EQ(c, box.back(), b);
  c.outcome(ref.size());
  c.state(mc::mix(mc::hashOf(f), mc::hashOf(b)));
}

// The domain of a raster is screened in storage order, also when the raster is empty
template <Index N>
void domainOrder(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, c.tier(7, 9)) : N;
  const Coord s = pickShape(c, dim, dim > 4, dim <= 3 ? c.tier(4, 5) : 2);
  c.shard();
  c.note("shape=", s);
  Raster<short, N> r(pos<N>(s));
  Index i = 0;
  const auto d = r.domain();
  for (const auto& p : d) {
    EXPECT(c, i < Index(r.size()), "iteration goes past the last position");
    EXPECT_EQ(c, r.index(p), i);
    ++i;
    c.step();
  }
  EXPECT_EQ(c, i, product(s));
  c.outcome(s);
}

// Small boxes far away: coordinates above 32 bits
template <Index N>
void far(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    const Index big = Index(1) << 31;
    f.push_back(c.of<Index>({big - 2, 2 * big - 2, -big - 2, -2 * big - 2, (Index(1) << 53) - 1, -(Index(1) << 62), 0}));
    b.push_back(f.back() + c.of<Index>({0, 3, 256}));
  }
  if (product(plus(plus(b, f, -1), 1)) > 2000) {
    c.prune();
  }
  c.shard();
  const auto ref = boxPositions(f, b);
  c.note("front=", f, " back=", b);
  const auto box = makeBox<N>(f, b);
  std::size_t i = 0;
  for (const auto& p : box) {
    EXPECT(c, i < ref.size(), "iteration goes past the last position, at", p);
    EXPECT_EQ(c, p, ref[i]);
    ++i;
    c.step();
  }
  EXPECT_EQ(c, i, ref.size());
  EXPECT_EQ(c, box.size(), Index(ref.size()));
  c.outcome(f);
}

// Histories of operations over two iterators (and their copies) on the same box
template <Index N>
void histories(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  Coord f, b;
  for (Index i = 0; i < dim; ++i) {
    const Index lo = c.of<Index>({0, -1});
    f.push_back(lo);
    b.push_back(lo + c.range(0, i == 0 ? 2 : 1));
  }
  const int first = c.pick(7);
  c.shard();
  const auto ref = boxPositions(f, b);
  const auto box = makeBox<N>(f, b);
  using It = typename Box<N>::Iterator;
  std::vector<std::unique_ptr<It>> its;
  std::vector<std::size_t> at {0, 0};
  its.emplace_back(new It(begin(box)));
  its.emplace_back(new It(begin(box)));
  const It e = end(box);
  c.note("front=", f, " back=", b);
  const int depth = c.tier(dim == 1 ? 6 : 5, dim == 1 ? 8 : 7);
  for (int k = 0; k < depth; ++k) {
    const int op = k == 0 ? first : c.pick(7);
    const int w = op % 2;
    switch (op) {
      case 0:
      case 1: // pre-increment
      case 2:
      case 3: // post-increment
        if (at[w] == ref.size()) {
          c.prune();
        }
        c.note(op < 2 ? "++it" : "it++", w);
        checkedIncrement(c, *its[w], op >= 2, ref, at[w]);
        break;
      case 4: // replace the second iterator with a copy of the first
        c.note("it1 = copy of it0");
        its[1].reset(new It(*its[0]));
        at[1] = at[0];
        break;
      case 5: // the source of a copy dies
      {
        c.note("it0 = copy of it1, it1 = new iterator");
        std::unique_ptr<It> copy(new It(*its[1]));
        its[1].reset();
        its[0] = std::move(copy);
        at[0] = at[1];
        its[1].reset(new It(begin(box)));
        at[1] = 0;
        break;
      }
      case 6:
        c.note("it0.reset()");
        its[0]->reset();
        at[0] = 0;
        break;
    }
    c.step();
    for (int j : {0, 1}) {
      EXPECT(c, (*its[j] == e) == (at[j] == ref.size()), "end comparison of iterator", j);
      EXPECT(c, (*its[j] != e) == (at[j] != ref.size()), "end comparison of iterator", j);
      EXPECT(c, (e == *its[j]) == (at[j] == ref.size()) && (e != *its[j]) == (at[j] != ref.size()), "comparison of the end and iterator", j);
      if (at[j] < ref.size()) {
        EXPECT(c, mc::same(**its[j], ref[at[j]]), "iterator", j, "is at", **its[j], "instead of", ref[at[j]]);
      }
    }
    EXPECT(c, (*its[0] == *its[1]) == (at[0] == at[1]), "comparison of iterators");
    EXPECT(c, (*its[1] == *its[0]) == (at[0] == at[1]), "comparison of iterators");
    EXPECT(c, (*its[0] != *its[1]) == (at[0] != at[1]) && (*its[1] != *its[0]) == (at[0] != at[1]), "comparison of iterators");
    c.state(mc::mix(mc::hashOf(at), mc::mix(mc::hashOf(f), mc::hashOf(b))));
  }
  c.outcome(at);
}

// Long axes
template <Index N>
void wide(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickWideShape(c, dim);
  const Coord f(dim, c.of<Index>({0, -7, 3}));
  const bool post = c.flip();
  c.shard();
  c.note("front=", f, " shape=", s);
  const Coord b = plus(plus(f, s), -1);
  const auto box = makeBox<N>(f, b);
  Coord p = f;
  Index n = 0;
  for (auto it = begin(box), e = end(box); it != e; ++n) {
    EXPECT(c, n < product(s), "iteration goes past the last position");
    EXPECT(c, std::equal(p.begin(), p.end(), (*it).begin()), "position", n, "is", *it, "instead of", p);
    if (post) {
      it++;
    } else {
      ++it;
    }
    nextPosition(p, f, b);
    c.step();
  }
  EXPECT_EQ(c, n, product(s));
  c.outcome(s);
}

// Standard algorithms may copy, post-increment and compare iterators
SCENARIO(standardAlgorithms) {
  const Coord s = pickShape(c, 2, 0, 3);
  c.shard();
  c.note("shape=", s);
  const auto box = Box<2>::fromShape(pos<2>({-1, 1}), pos<2>(s));
  const auto ref = boxPositions({-1, 1}, {s[0] - 2, s[1]});
  EXPECT_EQ(c, std::distance(begin(box), end(box)), std::ptrdiff_t(ref.size()));
  std::vector<Position<2>> got;
  for (auto it = begin(box), e = end(box); it != e;) {
    got.push_back(*it++);
  }
  EXPECT_EQ(c, got, ref);
  c.step(2 * ref.size());
  c.outcome(s);
}

TINSTANCE(wide, 1);
TINSTANCE(wide, 2);
TINSTANCE(wide, 3);
TINSTANCE(wide, -1);
TINSTANCE(full, 1);
TINSTANCE(full, 2);
TINSTANCE(full, 3);
TINSTANCE(full, 4);
TINSTANCE(full, 5);
TINSTANCE(full, 6);
TINSTANCE(full, 7);
TINSTANCE(full, -1);
TINSTANCE(domainOrder, 1);
TINSTANCE(domainOrder, 2);
TINSTANCE(domainOrder, 3);
TINSTANCE(domainOrder, 4);
TINSTANCE(domainOrder, 5);
TINSTANCE(domainOrder, 6);
TINSTANCE(domainOrder, 7);
TINSTANCE(domainOrder, 8);
TINSTANCE(domainOrder, -1);
TINSTANCE(histories, 1);
TINSTANCE(histories, 2);
TINSTANCE(histories, 3);
TINSTANCE(histories, -1);
TINSTANCE(far, 1);
TINSTANCE(far, 2);
TINSTANCE(far, 3);
TINSTANCE(far, -1);
