// C31: coordinate vectors
#include "LitlRaster/Vector.h"
#include "util.hpp"
#include <list>
#include <deque>
using namespace Litl;

template <typename T>
T letter31(Index i) {
  return i == 4 ? Limits<T>::inf() : i == 5 ? T(-Limits<T>::inf()) : T(i - 1);
}

template <typename T, Index N>
std::vector<T> values31(const Vector<T, N>& v) {
  return std::vector<T>(v.begin(), v.end());
}

template <typename T, Index N>
void isValues31(mc::Ctx& c, const Vector<T, N>& v, const std::vector<T>& expected) {
  EXPECT(c, v.size() == expected.size(), "dimension is", v.size(), "instead of", expected.size());
  EXPECT_EQ(c, values31(v), expected);
  for (std::size_t i = 0; i < expected.size(); ++i) {
    EXPECT(c, v[i] == expected[i] && v.data()[i] == expected[i]);
  }
  auto all = [&](T e) {
    return std::all_of(expected.begin(), expected.end(), [&](T x) {
      return x == e;
    });
  };
  EXPECT(c, v.isZero() == all(T(0)), "isZero", values31(v));
  EXPECT(c, v.isOne() == all(T(1)), "isOne", values31(v));
  EXPECT(c, v.isInf() == all(Limits<T>::inf()), "isInf", values31(v));
  c.step();
}

template <typename T>
T max31() {
  return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
}

template <typename T, Index N, Index M>
void slice31(mc::Ctx& c, const Vector<T, N>& v, const std::vector<T>& x, std::true_type) {
  const auto s = v.template slice<M>();
  isValues31<T, M>(c, s, std::vector<T>(x.begin(), x.begin() + M));
}
template <typename T, Index N, Index M>
void slice31(mc::Ctx&, const Vector<T, N>&, const std::vector<T>&, std::false_type) {}

template <typename T, Index N, Index M>
void extend31(mc::Ctx& c, const Vector<T, N>& v, const std::vector<T>& x, std::true_type) {
  auto expected = x;
  expected.resize(M, T(0));
  isValues31<T, M>(c, v.template extend<M>(), expected);
  Vector<T, M> padding(M);
  for (Index i = 0; i < M; ++i) {
    padding[i] = T(i + 20);
    if (i >= Index(x.size())) {
      expected[i] = padding[i];
    }
  }
  const auto before = values31(padding);
  isValues31<T, M>(c, v.template extend<M>(padding), expected);
  EXPECT_EQ(c, values31(padding), before);
}
template <typename T, Index N, Index M>
void extend31(mc::Ctx&, const Vector<T, N>&, const std::vector<T>&, std::false_type) {}

template <typename T, Index N, Index M>
void resize31(mc::Ctx& c, const Vector<T, N>& v, const std::vector<T>& x) {
  if (M <= Index(x.size())) {
    slice31<T, N, M>(c, v, x, std::integral_constant<bool, N == -1 || M <= N> {});
  }
  if (M >= Index(x.size())) {
    extend31<T, N, M>(c, v, x, std::integral_constant<bool, N == -1 || M >= N> {});
  }
}

template <typename T, Index N>
Vector<T, N> fromList31(const std::vector<T>& x) {
  switch (x.size()) {
    case 0:
      return Vector<T, N>(std::initializer_list<T> {});
    case 1:
      return {x[0]};
    case 2:
      return {x[0], x[1]};
    case 3:
      return {x[0], x[1], x[2]};
    case 4:
      return {x[0], x[1], x[2], x[3]};
    default:
      return {x[0], x[1], x[2], x[3], x[4]};
  }
}

template <typename T, Index N>
void vectors(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(0, 5) : N;
  std::vector<T> x;
  for (Index i = 0; i < dim; ++i) {
    x.push_back(letter31<T>(c.pick(dim < 4 ? 6 : 5)));
  }
  c.note("coordinates ", x);
  const auto v = fromList31<T, N>(x);
  isValues31<T, N>(c, v, x);
  isValues31<T, N>(c, Vector<T, N>(x), x);
  isValues31<T, N>(c, Vector<T, N>(std::vector<T>(x)), x);
  isValues31<T, N>(c, Vector<T, N>(std::list<T>(x.begin(), x.end())), x);
  isValues31<T, N>(c, Vector<T, N>(std::deque<T>(x.begin(), x.end())), x);
  isValues31<T, N>(c, Vector<T, N>(Vector<T, -1>(x)), x);
  Vector<T, N> sized(dim);
  EXPECT(c, Index(sized.size()) == dim);
  for (Index i = 0; i < dim; ++i) {
    sized[i] = x[i];
  }
  isValues31<T, N>(c, sized, x);
  EXPECT(c, sized == v);
  auto assigned = Vector<T, N>(dim).fill(T(9));
  assigned = v;
  isValues31<T, N>(c, assigned, x);
  // Lower and higher dimensions
  resize31<T, N, 0>(c, v, x);
  resize31<T, N, 1>(c, v, x);
  resize31<T, N, 2>(c, v, x);
  resize31<T, N, 3>(c, v, x);
  resize31<T, N, 4>(c, v, x);
  resize31<T, N, 5>(c, v, x);
  resize31<T, N, 6>(c, v, x);
  isValues31<T, N>(c, v, x);
  c.outcome(x);
}

template <typename T, Index N>
void named(mc::Ctx& c) {
  const auto dim = N == -1 ? 1 : N;
  isValues31<T, N>(c, Vector<T, N>::zero(), std::vector<T>(dim, T(0)));
  isValues31<T, N>(c, Vector<T, N>::one(), std::vector<T>(dim, T(1)));
  isValues31<T, N>(c, Vector<T, N>::inf(), std::vector<T>(dim, max31<T>()));
  if (N != 0) {
    EXPECT(c, (Vector<T, N>::zero().isZero()) && !(Vector<T, N>::zero().isOne()) && !(Vector<T, N>::zero().isInf()));
    EXPECT(c, !(Vector<T, N>::one().isZero()) && (Vector<T, N>::one().isOne()) && !(Vector<T, N>::one().isInf()));
    EXPECT(c, !(Vector<T, N>::inf().isZero()) && !(Vector<T, N>::inf().isOne()) && (Vector<T, N>::inf().isInf()));
  }
  // Not shared
  auto z = Vector<T, N>::zero();
  z.fill(T(5));
  isValues31<T, N>(c, Vector<T, N>::zero(), std::vector<T>(dim, T(0)));
  c.step();
  c.outcome(values31(z));
}

template <Index N, Index A>
void stride31(mc::Ctx& c, const Position<N>& p, const std::vector<Index>& strides) {
  if (A < Index(strides.size())) {
    EXPECT_EQ(c, (shapeStride<A>(p)), strides[A]);
  }
}

template <Index N>
void strides(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(0, 5) : N;
  std::vector<Index> x;
  for (Index i = 0; i < dim; ++i) {
    x.push_back(c.of({0, 1, 2, 3, 100003}));
  }
  if (std::count(x.begin(), x.end(), 100003) > 3) {
    c.prune();
  }
  c.note("shape ", x);
  const Position<N> p(x);
  std::vector<Index> expected {1};
  for (auto l : x) {
    expected.push_back(expected.back() * l);
  }
  for (Index i = 0; i <= dim; ++i) {
    EXPECT_EQ(c, shapeStride(p, i), expected[i]);
  }
  stride31<N, 0>(c, p, expected);
  stride31<N, 1>(c, p, expected);
  stride31<N, 2>(c, p, expected);
  stride31<N, 3>(c, p, expected);
  stride31<N, 4>(c, p, expected);
  EXPECT_EQ(c, shapeSize(p), dim == 0 ? 0 : expected[dim]);
  c.step(dim + 2);
  c.outcome(expected);
}

#define ALL31(N) \
  TINSTANCE(vectors, Index, N); \
  TINSTANCE(vectors, double, N); \
  TINSTANCE(named, Index, N); \
  TINSTANCE(named, int, N); \
  TINSTANCE(named, double, N); \
  TINSTANCE(named, float, N); \
  TINSTANCE(named, short, N); \
  TINSTANCE(strides, N)
ALL31(0);
ALL31(1);
ALL31(2);
ALL31(3);
ALL31(4);
ALL31(5);
ALL31(-1);
TINSTANCE(vectors, int, 3);
TINSTANCE(vectors, float, -1);
