// C08: value semantics of containers
#include "util.hpp"
using namespace Litl;

static constexpr std::size_t CAP = 4;

template <typename THolder>
struct Kind {
  static constexpr bool canMoveIn = false;
  static constexpr bool zeroed = true;
};
template <typename T>
struct Kind<StdHolder<std::vector<T>>> {
  static constexpr bool zeroed = true;
};
template <typename T>
struct Kind<AlignedBuffer<T>> {
  static constexpr bool zeroed = false;
};

struct Model {
  bool alive = false; // Holds a value (i.e. was not moved from)
  Coord shape;
  std::vector<long> values;
};

// Standard containers can be moved in and out
template <typename TRaster, typename THolder = typename TRaster::Holder>
struct StdOps {
  static constexpr bool available = false;
  static TRaster* moveIn(const Coord&, const std::vector<long>&) {
    return nullptr;
  }
  static bool moveOut(mc::Ctx&, TRaster&, const std::vector<long>&) {
    return false;
  }
};
template <typename TContainer>
TContainer makeContainer(const std::vector<long>& v) {
  TContainer out(v.size());
  for (std::size_t i = 0; i < v.size(); ++i) {
    out[i] = typename TContainer::value_type(v[i]);
  }
  return out;
}
template <>
std::array<int, CAP> makeContainer<std::array<int, CAP>>(const std::vector<long>& v) {
  std::array<int, CAP> out {};
  for (std::size_t i = 0; i < v.size(); ++i) {
    out[i] = int(v[i]);
  }
  return out;
}
template <typename TRaster, typename TContainer>
struct StdOps<TRaster, StdHolder<TContainer>> {
  static constexpr bool available = true;
  static TRaster* moveIn(const Coord& s, const std::vector<long>& v) {
    auto data = makeContainer<TContainer>(v);
    return new TRaster(pos<TRaster::Dimension>(s), std::move(data));
  }
  static bool moveOut(mc::Ctx& c, TRaster& r, const std::vector<long>& v) {
    auto out = makeContainer<TContainer>(std::vector<long>(v.size(), 55));
    auto& ret = r.moveTo(out);
    EXPECT(c, &ret == &out);
    EXPECT_EQ(c, std::size_t(out.size()), v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
      EXPECT(c, long(out[i]) == v[i], "extracted element", i);
    }
    return true;
  }
};

template <typename TRaster>
struct World {
  using T = typename TRaster::Value;
  static constexpr Index N = TRaster::Dimension;
  mc::Ctx& c;
  const std::vector<Coord>& shapes;
  std::unique_ptr<TRaster> r[2];
  Model m[2];
  long tag = 0;

  std::vector<long> fresh(std::size_t n) {
    std::vector<long> v;
    for (std::size_t i = 0; i < n; ++i) {
      v.push_back(++tag % 120);
    }
    return v;
  }

  void verify() {
    for (int w : {0, 1}) {
      c.step();
      if (!m[w].alive) {
        continue;
      }
      const TRaster& k = *r[w];
      EXPECT(c, mc::same(k.shape(), m[w].shape), "shape of object", w, "is", k.shape(), "instead of", m[w].shape);
      EXPECT(c, k.size() == m[w].values.size(), "size of object", w, "is", k.size(), "instead of", m[w].values.size());
      for (std::size_t i = 0; i < k.size(); ++i) {
        EXPECT(c, long(k[Index(i)]) == m[w].values[i], "element", i, "of object", w, "is", long(k[Index(i)]), "instead of", m[w].values[i]);
      }
    }
    if (m[0].alive && m[1].alive && !m[0].values.empty() && !m[1].values.empty()) {
      EXPECT(c, r[0]->data() != r[1]->data(), "owning objects share memory");
      EXPECT(c, *r[0] == *r[1] ? (m[0].shape == m[1].shape && m[0].values == m[1].values) : true);
    }
  }

  bool construct(int w) {
    const int kind = c.pick(StdOps<TRaster>::available ? 5 : 4);
    const Coord& s = shapes[c.pick(int(shapes.size()))];
    const std::size_t n = product(s);
    const auto v = fresh(n);
    r[w].reset();
    m[w] = Model {true, s, v};
    const auto p = pos<N>(s);
    switch (kind) {
      case 0: {
        c.note("r", w, " from shape ", s);
        r[w].reset(new TRaster(p));
        for (std::size_t i = 0; i < n; ++i) {
          if (Kind<typename TRaster::Holder>::zeroed) {
            EXPECT(c, (*r[w])[Index(i)] == T(0), "initial value");
          }
          (*r[w])[Index(i)] = T(v[i]);
        }
        break;
      }
      case 1: {
        c.note("r", w, " from list ", s);
        // Lists have a static size
        r[w].reset(
            n == 0 ? new TRaster(p, std::initializer_list<T> {}) :
            n == 1 ? new TRaster(p, {T(v[0])}) :
            n == 2 ? new TRaster(p, {T(v[0]), T(v[1])}) :
            n == 3 ? new TRaster(p, {T(v[0]), T(v[1]), T(v[2])}) :
                     new TRaster(p, {T(v[0]), T(v[1]), T(v[2]), T(v[3])}));
        break;
      }
      case 2: {
        c.note("r", w, " from iterable ", s);
        std::vector<long> source(v);
        r[w].reset(new TRaster(p, source));
        EXPECT(c, source == v, "source iterable was modified");
        std::fill(source.begin(), source.end(), 99);
        break;
      }
      case 3: {
        if (!Kind<typename TRaster::Holder>::zeroed) {
          return false; // Pointers are shared by this holder (see other scenarios)
        }
        c.note("r", w, " from pointer ", s);
        std::vector<T> source(v.begin(), v.end());
        r[w].reset(new TRaster(p, source.data()));
        std::fill(source.begin(), source.end(), T(99));
        break;
      }
      default:
        c.note("r", w, " from moved container ", s);
        r[w].reset(StdOps<TRaster>::moveIn(s, v));
    }
    return true;
  }

  bool apply(int op) {
    const int w = op % 2, o = 1 - w;
    switch (op / 2) {
      case 0:
        return construct(w);
      case 1:
        if (!m[o].alive) {
          return false;
        }
        c.note("r", w, " copy of r", o);
        r[w].reset(new TRaster(*r[o]));
        m[w] = m[o];
        return true;
      case 2:
        if (!m[o].alive) {
          return false;
        }
        c.note("r", w, " moved from r", o);
        r[w].reset(new TRaster(std::move(*r[o])));
        m[w] = m[o];
        m[o].alive = false;
        return true;
      case 3: {
        if (!r[w] || !m[o].alive) {
          return false;
        }
        c.note("r", w, " <- r", o);
        auto& ret = (*r[w] = *r[o]);
        EXPECT(c, &ret == r[w].get());
        m[w] = m[o];
        return true;
      }
      case 4: {
        if (!r[w] || !m[o].alive) {
          return false;
        }
        c.note("r", w, " <- moved r", o);
        auto& ret = (*r[w] = std::move(*r[o]));
        EXPECT(c, &ret == r[w].get());
        m[w] = m[o];
        m[o].alive = false;
        return true;
      }
      case 5: {
        if (!m[w].alive) {
          return false;
        }
        c.note("r", w, " <- itself");
        auto& x = *r[w];
        x = *(&x);
        return true;
      }
      case 6:
        if (!m[w].alive || m[w].values.empty()) {
          return false;
        }
        c.note("write in r", w);
        (*r[w])[Index(m[w].values.size() - 1)] = T(++tag % 120);
        m[w].values.back() = tag % 120;
        return true;
      case 7:
        if (!m[w].alive || !StdOps<TRaster>::available) {
          return false;
        }
        c.note("extract r", w);
        StdOps<TRaster>::moveOut(c, *r[w], m[w].values);
        m[w].alive = false;
        return true;
      case 8:
        if (!r[w]) {
          return false;
        }
        c.note("destroy r", w);
        r[w].reset();
        m[w] = Model();
        return true;
    }
    return false;
  }
};

static const std::vector<Coord>& shapesOf(Index n, bool arr) {
  static const std::vector<Coord> fixed {{2, 1}, {1, 3}, {0, 2}};
  static const std::vector<Coord> variable {{2}, {1, 3}, {1, 0, 2}};
  static const std::vector<Coord> arrFixed {{4, 1}, {2, 2}};
  static const std::vector<Coord> arrVariable {{4}, {2, 1, 2}};
  return arr ? (n == -1 ? arrVariable : arrFixed) : (n == -1 ? variable : fixed);
}

template <typename TRaster, bool Arr>
void histories(mc::Ctx& c) {
  std::uint64_t h = 0;
  std::size_t out = 0;
  const auto& shapes = shapesOf(TRaster::Dimension, Arr);
  mc::Live live;
  {
    World<TRaster> world {c, shapes};
    const int depth = int(c.tier(4, 5));
    for (int k = 0; k < depth; ++k) {
      const int op = k == 0 ? 0 : c.pick(18); // r0 is constructed first
      if (!world.apply(op)) {
        c.prune();
      }
      if (k == 1) {
        c.shard();
      }
      world.verify();
    }
    for (int w : {0, 1}) {
      h = mc::mix(h, world.m[w].alive ? mc::hashOf(world.m[w].values) : 0);
      h = mc::mix(h, mc::hashOf(world.m[w].shape));
      out = out * 10 + world.m[w].values.size();
    }
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
  c.state(h);
  c.outcome(out);
}

// Non-owning rasters share the memory they were given, through copies, moves and assignments
template <typename TRaster>
void sharing(mc::Ctx& c) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  T memory[2][6];
  for (int i = 0; i < 6; ++i) {
    memory[0][i] = T(i);
    memory[1][i] = T(10 + i);
  }
  const bool same = c.flip(); // The two of them have the same shape
  const auto shape = [=](int i) {
    i = same ? 1 : i;
    return N == 1 ? Coord {i ? 4 : 6} : N == -1 ? (i ? Coord {2, 1, 2} : Coord {3, 2}) : (i ? Coord {2, 2} : Coord {3, 2});
  };
  mc::Live live;
  {
    std::unique_ptr<TRaster> r[2];
    int at[2] = {-1, -1}; // Memory designated
    for (int k = 0; k < int(c.tier(5, 6)); ++k) {
      const int op = c.pick(k == 0 ? 2 : 14);
      if (k == 2) {
        c.shard();
      }
      const int w = op % 2, o = 1 - w;
      switch (op / 2) {
        case 0:
        case 1: {
          const int s = op / 2;
          c.note("r", w, " shares memory ", s);
          r[w].reset(new TRaster(pos<N>(shape(s)), memory[s]));
          at[w] = s;
          break;
        }
        case 2:
        case 3:
          if (at[o] < 0) {
            c.prune();
          }
          c.note("r", w, op / 2 == 2 ? " copy of r" : " moved from r", o);
          r[w].reset(op / 2 == 2 ? new TRaster(*r[o]) : new TRaster(std::move(*r[o])));
          at[w] = at[o];
          if (op / 2 == 3) {
            at[o] = -1;
          }
          break;
        case 4:
        case 5:
          if (at[o] < 0 || !r[w]) {
            c.prune();
          }
          c.note("r", w, op / 2 == 4 ? " <- r" : " <- moved r", o);
          if (op / 2 == 4) {
            *r[w] = *r[o];
          } else {
            *r[w] = std::move(*r[o]);
          }
          at[w] = at[o];
          if (op / 2 == 5) {
            at[o] = -1;
          }
          break;
        case 6:
          if (at[w] < 0) {
            c.prune();
          }
          c.note("write in r", w);
          (*r[w])[Index(k)] = T(50 + k);
          EXPECT(c, memory[at[w]][k] == T(50 + k), "write through the non-owning raster");
          break;
      }
      c.step();
      for (int j : {0, 1}) {
        if (at[j] >= 0) {
          EXPECT(c, r[j]->data() == memory[at[j]], "memory of raster", j);
          EXPECT_EQ(c, r[j]->shape(), shape(at[j]));
          EXPECT_EQ(c, r[j]->size(), std::size_t(product(shape(at[j]))));
        }
      }
    }
    c.outcome(at[0] * 3 + at[1]);
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
}

// Data whose size is not that of the shape is refused, and nothing leaks
template <typename TRaster, bool Arr>
void mismatch(mc::Ctx& c) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  const Index dim = N == -1 ? c.range(1, 3) : N;
  const Coord s = pickShape(c, dim, 0, 4);
  const std::size_t n = c.range(0, 6);
  const int kind = c.pick(Arr ? 4 : StdOps<TRaster>::available ? 3 : 2);
  c.shard();
  if (Arr && (product(s) == 0 || (kind >= 2 && n > 0))) { // The size of the null shape is unspecified; n is not used
    c.prune();
  }
  c.note("shape=", s, " data size=", n, " kind=", kind);
  std::vector<long> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(long(i + 1));
  }
  // An exception allocates its message: warm up is not needed since it is destroyed in the scope
  mc::Live live;
  bool thrown = false;
  {
    std::unique_ptr<TRaster> r;
    try {
      const auto p = pos<N>(s);
      if (kind == 0) {
        const std::vector<T> t(v.begin(), v.end());
        switch (n) {
          case 0:
            r.reset(new TRaster(p, std::initializer_list<T> {}));
            break;
          case 1:
            r.reset(new TRaster(p, {t[0]}));
            break;
          case 2:
            r.reset(new TRaster(p, {t[0], t[1]}));
            break;
          case 3:
            r.reset(new TRaster(p, {t[0], t[1], t[2]}));
            break;
          case 4:
            r.reset(new TRaster(p, {t[0], t[1], t[2], t[3]}));
            break;
          case 5:
            r.reset(new TRaster(p, {t[0], t[1], t[2], t[3], t[4]}));
            break;
          default:
            r.reset(new TRaster(p, {t[0], t[1], t[2], t[3], t[4], t[5]}));
        }
      } else if (kind == 1) {
        r.reset(new TRaster(p, v));
      } else if (kind == 2) {
        r.reset(StdOps<TRaster>::moveIn(s, v));
      } else {
        r.reset(new TRaster(p));
      }
    } catch (const std::exception&) {
      thrown = true;
    }
    c.step();
    const bool mismatch = (Arr && product(s) != Index(CAP)) || (kind < (Arr ? 2 : 3) && Index(n) != product(s));
    EXPECT(c, thrown == mismatch, "exception for a size mismatch");
    if (r) {
      for (std::size_t i = 0; i < n; ++i) {
        EXPECT(c, (*r)[Index(i)] == T(v[i]), "element", i);
      }
      EXPECT_EQ(c, Index(r->size()), product(s));
      EXPECT_EQ(c, r->shape(), s);
    }
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
  c.outcome(thrown);
}

// Coordinate vectors
template <Index N>
void vectors(mc::Ctx& c) {
  const Index n0 = N == -1 ? c.range(1, 3) : N;
  const Index n1 = N == -1 ? c.range(1, 3) : N;
  mc::Live live;
  {
    std::unique_ptr<Vector<int, N>> v[2];
    std::vector<int> m[2];
    bool alive[2] = {false, false};
    for (int k = 0; k < int(c.tier(5, 6)); ++k) {
      const int op = c.pick(k == 0 ? 2 : 14);
      if (k == 2) {
        c.shard();
      }
      const int w = op % 2, o = 1 - w;
      if (op / 2 >= 2 && op / 2 <= 5 && !alive[o]) {
        c.prune();
      }
      if (op / 2 >= 4 && !v[w]) {
        c.prune();
      }
      switch (op / 2) {
        case 0:
        case 1: {
          m[w].assign(op / 2 ? n1 : n0, 0);
          for (auto& e : m[w]) {
            e = 10 * k + int(&e - &m[w][0]) + op;
          }
          if (op / 2) {
            v[w].reset(new Vector<int, N>(m[w]));
          } else {
            v[w].reset(new Vector<int, N>(int(m[w].size())));
            std::copy(m[w].begin(), m[w].end(), v[w]->begin());
          }
          alive[w] = true;
          break;
        }
        case 2:
          v[w].reset(new Vector<int, N>(*v[o]));
          m[w] = m[o];
          alive[w] = true;
          break;
        case 3:
          v[w].reset(new Vector<int, N>(std::move(*v[o])));
          m[w] = m[o];
          alive[w] = true;
          alive[o] = false;
          break;
        case 4:
          *v[w] = *v[o];
          m[w] = m[o];
          alive[w] = true;
          break;
        case 5:
          *v[w] = std::move(*v[o]);
          m[w] = m[o];
          alive[w] = true;
          alive[o] = false;
          break;
        case 6:
          if (!alive[w]) {
            c.prune();
          }
          (*v[w])[0] = m[w][0] = 70 + k;
          break;
      }
      c.step();
      for (int j : {0, 1}) {
        if (alive[j]) {
          EXPECT_EQ(c, *v[j], m[j]);
        }
      }
    }
    c.outcome(m[0]);
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
}

TINSTANCE(histories, Raster<int, 2>, false);
TINSTANCE(histories, Raster<double, -1>, false);
TINSTANCE(histories, ValRaster<int, 2>, false);
TINSTANCE(histories, ValRaster<short, -1>, false);
TINSTANCE(histories, ArrRaster<int, CAP, 2>, true);
TINSTANCE(histories, ArrRaster<int, CAP, -1>, true);
TINSTANCE(histories, AlignedRaster<float, 2>, false);
TINSTANCE(histories, AlignedRaster<int, -1>, false);
TINSTANCE(sharing, PtrRaster<int, 2>);
TINSTANCE(sharing, PtrRaster<int, -1>);
TINSTANCE(sharing, AlignedRaster<char, 1>);
TINSTANCE(sharing, AlignedRaster<double, -1>);
TINSTANCE(mismatch, Raster<int, 2>, false);
TINSTANCE(mismatch, Raster<double, -1>, false);
TINSTANCE(mismatch, ValRaster<int, 3>, false);
TINSTANCE(mismatch, ValRaster<int, -1>, false);
TINSTANCE(mismatch, AlignedRaster<int, 2>, false);
TINSTANCE(mismatch, AlignedRaster<int, -1>, false);
TINSTANCE(mismatch, ArrRaster<int, CAP, 2>, true);
TINSTANCE(mismatch, ArrRaster<int, CAP, -1>, true);
TINSTANCE(vectors, 3);
TINSTANCE(vectors, -1);
