// C35: structuring elements
#include "LitlRaster/Ball.h"
#include "LitlTransforms/StructuringElement.h"
#include "util.hpp"
using namespace Litl;

namespace {

inline Index extrapolated(const Coord& s, const Coord& p, int method) {
  Index offset = 0, stride = 1;
  for (std::size_t i = 0; i < s.size(); ++i) {
    Index q = p[i];
    if (q < 0 || q >= s[i]) {
      if (method == 0) {
        return -1;
      }
      q = method == 1 ? (q < 0 ? 0 : s[i] - 1) : ((q % s[i]) + s[i]) % s[i];
    }
    offset += q * stride;
    stride *= s[i];
  }
  return offset;
}

template <typename T>
T letter(Index i) {
  static const std::vector<double> letters {10, 3, 200, 11, 70};
  static const std::vector<double> signs {1, -1, -1, -1, 1}; // Negative neighbourhoods, too
  return T((sizeof(T) == 1 && std::is_signed<T>::value ? letters[i % 5] / 2 : letters[i % 5]) * (std::is_signed<T>::value ? signs[i % 5] : 1));
}

enum Kind35 { Erode, Dilate, Median };

template <typename T, Index N, typename TRegion>
struct World35 {
  mc::Ctx& c;
  Coord s;
  std::vector<Coord> window;
  StructuringElement<T, N, TRegion> element;
  int method;
  T constant = letter<T>(3);
  Raster<T, N> in;

  World35(mc::Ctx& ctx, const Coord& shape, const std::vector<Coord>& positions, const TRegion& region, int m) :
      c(ctx), s(shape), window(positions), element(region), method(m), in(pos<N>(shape)) {}

  std::vector<T> expected(Kind35 kind) const {
    std::vector<T> out;
    for (const auto& p : shapePositions(s)) {
      std::vector<T> v;
      for (const auto& q : window) {
        const Index o = extrapolated(s, plus(p, q), method);
        v.push_back(o < 0 ? constant : in.data()[o]);
      }
      std::sort(v.begin(), v.end());
      const auto n = v.size();
      out.push_back(kind == Erode ? v.front() : kind == Dilate ? v.back() : n % 2 == 1 ? v[n / 2] : T((double(v[n / 2 - 1]) + double(v[n / 2])) / 2));
    }
    return out;
  }

  template <typename F>
  void with(F&& f) {
    switch (method) {
      case 0:
        f(extrapolate(in, constant));
        break;
      case 1:
        f(extrapolate<NearestNeighbor>(in));
        break;
      default:
        f(extrapolate<Periodic>(in));
    }
  }

  // Any operation, in its region, default one or new-instance form
  template <typename TOut>
  void run(Kind35 kind, int form, const Coord& f, const Coord& b) {
    const auto all = expected(kind);
    const std::vector<T> before(in.begin(), in.end());
    std::vector<TOut> result(all.size() + 4, TOut(77));
    PtrRaster<TOut, N> out(pos<N>(s), result.data() + 2);
    std::vector<TOut> wanted(all.size() + 4, TOut(77));
    for (const auto& p : form == 1 ? boxPositions(f, b) : shapePositions(s)) {
      wanted[2 + offsetOf(s, p)] = TOut(all[offsetOf(s, p)]);
    }
    with([&](const auto& e) {
      const Box<N> region(pos<N>(f), pos<N>(b));
      switch (kind) {
        case Erode:
          form == 1 ? element.erodeTo(e, out, region) : element.erodeTo(e, out);
          break;
        case Dilate:
          form == 1 ? element.dilateTo(e, out, region) : element.dilateTo(e, out);
          break;
        case Median:
          if (form == 2) {
            const auto r = element.median(e);
            EXPECT_EQ(c, coord<N>(r.shape()), s);
            std::copy(r.begin(), r.end(), out.begin());
          } else {
            form == 1 ? element.medianTo(e, out, region) : element.medianTo(e, out);
          }
      }
    });
    EXPECT(c, result == wanted, kind == Erode ? "erosion" : kind == Dilate ? "dilation" : "median", "gives", result, "instead of", wanted);
    EXPECT(c, std::equal(before.begin(), before.end(), in.begin()), "the input was modified");
    c.step(all.size());
  }
};

// The region of the element: a box (kind 0), or a ball
template <typename TRegion, Index N>
struct Region35;
template <Index N>
struct Region35<Box<N>, N> {
  static Box<N> pick(mc::Ctx& c, Index dim, std::vector<Coord>& positions) {
    Coord front, back;
    for (Index i = 0; i < dim; ++i) {
      front.push_back(dim > 3 && i > 0 ? i - 2 : c.range(dim == 1 ? -4 : dim == 2 ? -2 : -1, 1));
      back.push_back(front.back() + c.range(0, dim == 1 ? 4 : dim == 2 ? 2 : 1));
    }
    positions = boxPositions(front, back);
    c.note("window ", front, " ", back, " ");
    return Box<N>(pos<N>(front), pos<N>(back));
  }
};
template <Index N, Index P>
struct Region35<Ball<N, P>, N> {
  static Ball<N, P> pick(mc::Ctx& c, Index dim, std::vector<Coord>& positions) {
    const double radius = .5 * c.range(0, dim == 1 ? 8 : 5);
    Coord centre;
    for (Index i = 0; i < dim; ++i) {
      centre.push_back(c.range(-1, 1));
    }
    for (const auto& p : boxPositions(Coord(dim, -6), Coord(dim, 6))) {
      double d = 0;
      for (Index i = 0; i < dim; ++i) {
        const double e = std::abs(double(p[i] - centre[i]));
        d += P == 1 ? e : e * e;
      }
      if (d <= (P == 1 ? radius : radius * radius)) {
        positions.push_back(p);
      }
    }
    c.note("ball of radius ", radius, " around ", centre, " ");
    return Ball<N, P>(radius, pos<N>(centre));
  }
};

} // namespace

// All elements, shapes, methods and operations on a dense image
template <typename T, typename TOut, Index N, typename TRegion>
void elements(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  const Coord s = pickShape(c, dim, 1, dim == 1 ? c.tier(7, 9) : dim == 2 ? c.tier(4, 5) : dim == 3 ? c.tier(2, 3) : 2);
  std::vector<Coord> positions;
  const auto region = Region35<TRegion, N>::pick(c, dim, positions);
  c.shard();
  const int method = c.pick(3);
  c.note("shape ", s, " method ", method);
  World35<T, N, TRegion> world(c, s, positions, region, method);
  for (Index i = 0; i < product(s); ++i) {
    world.in.data()[i] = T((i * 37 + 11) % 97);
  }
  Coord last = s;
  for (auto& e : last) {
    --e;
  }
  for (int kind = 0; kind < 3; ++kind) {
    world.template run<TOut>(Kind35(kind), 0, Coord(dim, 0), last);
    for (Index axis = 0; axis < dim; ++axis) { // Regions flat along an axis, starting anywhere
      for (Index k = 0; k < s[axis]; ++k) {
        Coord f(dim, 0), b = last;
        f[axis] = k;
        world.template run<TOut>(Kind35(kind), 1, f, b);
        b[axis] = k;
        world.template run<TOut>(Kind35(kind), 1, f, b);
      }
    }
    Coord b = last;
    b[0] = -1;
    world.template run<TOut>(Kind35(kind), 1, Coord(dim, 0), b); // Empty
  }
  world.template run<TOut>(Median, 2, Coord(dim, 0), last);
  c.outcome(world.expected(Median));
}

// All contents
template <typename T, Index N>
void contents(mc::Ctx& c) {
  const Index dim = N;
  const Coord s = dim == 1 ? Coord {c.range(1, c.tier(5, 6))} : c.of(c.thorough() ? std::vector<Coord> {{1, 2}, {2, 2}, {3, 1}, {3, 2}} : std::vector<Coord> {{1, 2}, {2, 2}, {3, 1}});
  Coord front, back;
  for (Index i = 0; i < dim; ++i) {
    front.push_back(c.range(dim == 1 ? -2 : -1, 0));
    back.push_back(front.back() + c.range(0, dim == 1 ? 4 : 1));
  }
  c.shard();
  const int method = c.pick(3);
  World35<T, N, Box<N>> world(c, s, boxPositions(front, back), Box<N>(pos<N>(front), pos<N>(back)), method);
  for (Index i = 0; i < product(s); ++i) {
    world.in.data()[i] = letter<T>(c.pick(dim == 1 ? 4 : 3));
  }
  c.note("shape ", s, " window ", front, " ", back, " method ", method, " values ", std::vector<T>(world.in.begin(), world.in.end()));
  for (int kind = 0; kind < 3; ++kind) {
    world.template run<T>(Kind35(kind), 0, front, back);
  }
  c.outcome(world.expected(Median));
}

// Histories of operations of the same element on changing images: nothing is kept from one to the next
template <typename T, Index N>
void histories(mc::Ctx& c) {
  const Coord s = c.of(std::vector<Coord> {{3, 2}, {1, 4}});
  const Index r = c.range(0, 1);
  const bool even = c.flip();
  const Coord front {-r, even ? -1 : -r}, back {r, even ? 0 : r};
  World35<T, N, Box<N>> world(c, s, boxPositions(front, back), Box<N>(pos<N>(front), pos<N>(back)), 1);
  if (N != -1 && !even && c.flip()) { // Radius-based constructor (of known dimension)
    world.element = r == 1 && c.flip() ? StructuringElement<T, N>() : StructuringElement<T, N>(r); // Documented default
  }
  c.shard();
  for (Index i = 0; i < product(s); ++i) {
    world.in.data()[i] = letter<T>(i);
  }
  const int length = c.tier(4, 5);
  for (int k = 0; k < length; ++k) {
    const int op = c.pick(9);
    c.note(" ", op);
    if (op < 6) {
      world.template run<T>(Kind35(op / 2), op % 2, Coord(2, 0), op % 2 ? Coord {0, 1} : plus(s, -1));
    } else if (op == 6) {
      world.template run<T>(Median, 2, Coord(2, 0), Coord(2, 0));
    } else if (op == 7) {
      world.in.data()[k % product(s)] = letter<T>(k + 2);
    } else {
      const auto copy = world.element;
      world.element = copy;
    }
  }
  c.outcome(world.expected(Erode));
}

// Large windows, with a single extreme value anywhere
template <typename T, Index N>
void large(mc::Ctx& c) {
  const std::vector<Coord> shapes[] = {{{5}, {97}, {300}}, {{3, 4}, {20, 11}}, {{4, 3, 5}}};
  const std::vector<std::pair<Coord, Coord>> windows[] = {
      {{{-32}, {32}}, {{-64}, {0}}, {{-64}, {64}}, {{-70}, {63}}, {{-1}, {255}}, {{3}, {260}}, {{-200}, {-70}}},
      {{{-4, -4}, {4, 4}}, {{-8, -8}, {8, 7}}, {{0, -2}, {32, 5}}, {{-1, -40}, {1, 3}}, {{-15, 3}, {16, 6}}},
      {{{-2, -2, -2}, {2, 2, 2}}, {{-1, 0, -4}, {3, 4, 1}}}};
  const Coord s = c.of(shapes[N - 1]);
  const auto window = c.of(windows[N - 1]);
  const int method = c.pick(3);
  c.shard();
  const Index step = c.tier(std::max(Index(1), product(s) / 12), std::max(Index(1), product(s) / 60));
  const Index extreme = c.range(0, (product(s) - 1) / step) * step;
  c.note("shape ", s, " window ", window.first, " ", window.second, " method ", method, " extreme at ", extreme);
  World35<T, N, Box<N>> world(c, s, boxPositions(window.first, window.second), Box<N>(pos<N>(window.first), pos<N>(window.second)), method);
  const bool low = c.flip();
  for (Index i = 0; i < product(s); ++i) {
    world.in.data()[i] = i == extreme ? T(low ? 1 : 1999) : T(5 + (i * 7919 + 11) % 1009);
  }
  for (int kind = 0; kind < 3; ++kind) {
    world.template run<T>(Kind35(kind), 0, s, s);
  }
  c.outcome(world.expected(low ? Erode : Dilate));
}

using Box1 = Box<1>;
using Box2 = Box<2>;
using Box3 = Box<3>;
using Box4 = Box<4>;
using BoxV = Box<-1>;
using Ball11 = Ball<1, 1>;
using Ball21 = Ball<2, 1>;
using Ball22 = Ball<2, 2>;
// Extremes, whose sum overflows, and integers which a double cannot represent
template <typename T>
struct Far35 {
  static std::vector<T> letters() {
    using L = std::numeric_limits<T>;
    if (std::is_floating_point<T>::value) {
      return {L::max(), T(L::max() / 2), L::lowest(), T(0)};
    }
    return {L::max(), T(L::max() - 1), T(L::max() / 2), L::min()};
  }
};
template <typename T>
T farMedian35(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  const auto n = v.size();
  return n % 2 == 1 ? v[n / 2] : T(((long double)v[n / 2 - 1] + (long double)v[n / 2]) / 2);
}
template <typename T>
void far(mc::Ctx& c) {
  const Index n = c.range(1, c.tier(5, 6));
  const Index back = c.range(0, 4);
  const Index front = -c.range(0, back);
  const int method = c.pick(2);
  c.shard();
  Raster<T, 1> in({n});
  for (auto& e : in) {
    e = c.of(Far35<T>::letters());
  }
  const T constant = Far35<T>::letters()[1];
  c.note("window ", front, " ", back, " method ", method, " values ", in);
  StructuringElement<T, 1> element(Box<1>({front}, {back}));
  Raster<T, 1> low({n}), high({n}), middle({n});
  auto run = [&](const auto& e) {
    element.erodeTo(e, low);
    element.dilateTo(e, high);
    element.medianTo(e, middle);
    EXPECT(c, element.median(e) == middle);
  };
  if (method == 0) {
    run(extrapolate(in, constant));
  } else {
    run(extrapolate<NearestNeighbor>(in));
  }
  for (Index i = 0; i < n; ++i) {
    std::vector<T> neighbors;
    for (Index j = i + front; j <= i + back; ++j) {
      neighbors.push_back(j >= 0 && j < n ? in[j] : method == 0 ? constant : in[j < 0 ? 0 : n - 1]);
    }
    const T expected = farMedian35(neighbors);
    EXPECT(c, low[i] == *std::min_element(neighbors.begin(), neighbors.end()), "erosion: pixel", i, "is", low[i]);
    EXPECT(c, high[i] == *std::max_element(neighbors.begin(), neighbors.end()), "dilation: pixel", i, "is", high[i]);
    EXPECT(c, middle[i] == expected, "median: pixel", i, "is", middle[i], "instead of", expected);
    c.step();
  }
  c.outcome(std::vector<long double>(middle.begin(), middle.end()));
}

TINSTANCE(far, long);
TINSTANCE(far, int);
TINSTANCE(far, unsigned char);
TINSTANCE(far, double);
TINSTANCE(far, float);
TINSTANCE(elements, int, double, 1, Box1);
TINSTANCE(elements, int, int, 2, Box2);
TINSTANCE(elements, float, float, -1, BoxV);
TINSTANCE(elements, double, float, 3, Box3);
TINSTANCE(elements, int, int, 4, Box4);
TINSTANCE(elements, int, int, 1, Ball11);
TINSTANCE(elements, float, double, 2, Ball21);
TINSTANCE(elements, unsigned char, int, 2, Ball22);
// Long axes
template <typename T, Index N>
void wide(mc::Ctx& c) {
  const Coord s = pickWideShape(c, N, {70001, 300});
  const int method = c.pick(3);
  const Coord front(N, c.range(-1, 0));
  const Coord back = plus(front, N == 1 ? 2 : 1);
  c.shard();
  c.note("shape ", s, " window ", front, " ", back, " method ", method);
  World35<T, N, Box<N>> world(c, s, boxPositions(front, back), Box<N>(pos<N>(front), pos<N>(back)), method);
  for (Index i = 0; i < product(s); ++i) {
    world.in.data()[i] = T(5 + (i * 7919 + 11) % 1009);
  }
  for (int kind = 0; kind < 3; ++kind) {
    world.template run<T>(Kind35(kind), 0, s, s);
  }
  c.outcome(s);
}

TINSTANCE(wide, int, 1);
TINSTANCE(wide, float, 2);
TINSTANCE(large, int, 1);
TINSTANCE(large, double, 2);
TINSTANCE(large, float, 3);
TINSTANCE(contents, int, 1);
TINSTANCE(contents, double, 1);
TINSTANCE(contents, unsigned char, 2);
TINSTANCE(histories, float, 2);
TINSTANCE(histories, int, -1);
// The other supported types
TINSTANCE(far, char);
TINSTANCE(far, signed char);
TINSTANCE(far, short);
TINSTANCE(far, unsigned short);
TINSTANCE(far, unsigned);
TINSTANCE(far, long long);
TINSTANCE(contents, signed char, 1);
TINSTANCE(contents, short, 1);
TINSTANCE(contents, unsigned, 1);
TINSTANCE(contents, unsigned long, 1);
TINSTANCE(contents, long double, 1);
