// C08: value semantics of wide containers (sizes beyond 8 and 16 bits), and of other element types
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <deque>
#include <list>
#include <set>
using namespace Litl;

namespace {

template <typename T>
T value08(std::size_t tag, std::size_t i) {
  return T((i * 7 + i / 251 + tag * 13) % 120 + tag);
}

template <typename T>
struct Model08 {
  bool alive = false;
  std::size_t tag = 0;
  std::vector<T> values;
  void set(std::size_t t, std::size_t n) {
    tag = t;
    alive = true;
    values.resize(n);
    for (std::size_t i = 0; i < n; ++i) {
      values[i] = value08<T>(t, i);
    }
  }
};

template <typename TRaster, typename THolder = typename TRaster::Holder>
struct Std08 {
  static constexpr bool available = false;
  template <typename... Ts>
  static TRaster* moveIn(Ts&&...) {
    return nullptr;
  }
  template <typename... Ts>
  static TRaster* copyIn(Ts&&...) {
    return nullptr;
  }
  template <typename... Ts>
  static bool moveOut(Ts&&...) {
    return true;
  }
};
template <typename TRaster, typename TContainer>
struct Std08<TRaster, StdHolder<TContainer>> {
  static constexpr bool available = true;
  template <typename TPos, typename T>
  static TRaster* moveIn(TPos&& p, const std::vector<T>& v) {
    TContainer in(v.size());
    std::copy(v.begin(), v.end(), std::begin(in));
    return new TRaster(p, std::move(in));
  }
  template <typename TPos, typename T>
  static TRaster* copyIn(TPos&& p, std::vector<T> v, bool constant) {
    TRaster* out = constant ? new TRaster(p, static_cast<const T*>(v.data())) : new TRaster(p, v.data());
    std::fill(v.begin(), v.end(), T(99)); // The values were copied
    return out;
  }
  template <typename T>
  static bool moveOut(TRaster& r, const std::vector<T>& v) {
    TContainer out(3);
    r.moveTo(out);
    return out.size() == v.size() && std::equal(v.begin(), v.end(), std::begin(out));
  }
};

// Every construction, then every pair of other operations, for every pair of widths
template <typename TRaster>
void wide(mc::Ctx& c) {
  using T = typename TRaster::Value;
  constexpr Index N = TRaster::Dimension;
  const std::vector<Coord> shapes = N == 1 ? std::vector<Coord> {{300}, {70001}, {65536}, {2}} :
                                             std::vector<Coord> {{20, 15}, {7, 10001}, {65536, 1}, {1, 2}};
  mc::Live live;
  {
    std::unique_ptr<TRaster> r[2];
    Model08<T> m[2];
    const auto make = [&](int w, std::size_t tag, int op, const Coord& s) {
      m[w].set(tag, product(s));
      const auto p = pos<N>(s);
      const auto& v = m[w].values;
      switch (op) {
        case 0:
          r[w].reset(new TRaster(p));
          std::copy(v.begin(), v.end(), r[w]->begin());
          break;
        case 1: {
          std::list<T> in(v.begin(), v.end());
          r[w].reset(new TRaster(p, in));
          break;
        }
        case 2:
          r[w].reset(new TRaster(p, v));
          break;
        case 3: {
          const std::deque<long> in(v.begin(), v.end());
          r[w].reset(new TRaster(p, in));
          break;
        }
        case 4:
          if (not Std08<TRaster>::available) {
            c.prune();
          }
          r[w].reset(Std08<TRaster>::moveIn(p, v));
          break;
        case 5:
        case 6:
          if (not Std08<TRaster>::available) {
            c.prune();
          }
          r[w].reset(Std08<TRaster>::copyIn(p, v, op == 6));
          break;
      }
    };
    const int op0 = c.pick(7);
    const Coord s0 = c.of(shapes);
    c.shard();
    const Coord s1 = c.of(shapes);
    c.note("construction ", op0, " of shape ", s0, ", other shape ", s1);
    make(0, 1, op0, s0);
    make(1, 2, 2, s1);
    for (int k = 0; k < int(c.tier(2, 3)); ++k) {
      const int op = c.pick(7);
      c.note("operation ", op);
      c.step();
      switch (op) {
        case 0:
          *r[1] = *r[0];
          m[1] = m[0];
          break;
        case 1:
          *r[1] = std::move(*r[0]);
          m[1] = m[0];
          m[0].alive = false;
          break;
        case 2:
          r[1].reset(new TRaster(*r[0]));
          m[1] = m[0];
          break;
        case 3:
          r[1].reset(new TRaster(std::move(*r[0])));
          m[1] = m[0];
          m[0].alive = false;
          break;
        case 4: {
          auto& self = *r[0];
          *r[0] = self;
          break;
        }
        case 5:
          if (m[0].alive && not m[0].values.empty()) {
            const std::size_t n = m[0].values.size();
            for (std::size_t i : {std::size_t(0), n / 2, n - 1}) {
              (*r[0])[Index(i)] = m[0].values[i] = T(100 + k);
            }
          }
          break;
        case 6:
          std::swap(*r[0], *r[1]);
          std::swap(m[0], m[1]);
          break;
      }
      for (int w : {0, 1}) {
        if (m[w].alive) {
          const auto& v = m[w].values;
          const TRaster& x = *r[w];
          EXPECT_EQ(c, std::size_t(x.size()), v.size());
          EXPECT_EQ(c, product(Coord(x.shape().begin(), x.shape().end())), Index(v.size()));
          const auto diff = std::mismatch(v.begin(), v.end(), x.begin());
          EXPECT(c, diff.first == v.end(), "element", diff.first - v.begin(), "of object", w, "is wrong");
        }
      }
      if (not m[0].alive) { // Assign again
        make(0, 5 + k, 2, s1);
      }
    }
    EXPECT(c, Std08<TRaster>::moveOut(*r[1], m[1].values), "extracted container");
    c.outcome(m[1].values);
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
}

TINSTANCE(wide, Raster<int, 2>);
TINSTANCE(wide, Raster<double, 1>);
TINSTANCE(wide, Raster<unsigned char, -1>);
TINSTANCE(wide, ValRaster<short, 2>);
TINSTANCE(wide, AlignedRaster<float, 2>);
TINSTANCE(wide, AlignedRaster<char, -1>);

} // namespace
