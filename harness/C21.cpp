// C21: samplings
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "util.hpp"
using namespace Litl;

template <typename T>
std::vector<T> expected21(T front, T back, T step) {
  std::vector<T> out;
  for (int i = 0; front + step * T(i) <= back; ++i) {
    out.push_back(front + step * T(i));
  }
  return out;
}

template <typename T>
T unit() {
  return std::is_integral<T>::value ? T(1) : T(.25);
}

// Any history of iterator operations over [0, n]: it is at index k
template <typename It, typename F>
void walk(mc::Ctx& c, It it, It end, long n, int depth, bool repeat, F&& at) {
  long k = 0;
  const It first = it;
  const It* const iterators[] = {&first, &it, &end};
  auto verify = [&](It& i, long j) {
    EXPECT(c, (i == end) == (j == n) && (i != end) == (j != n), "comparison with end at", j, "of", n);
    const long indices[] = {0, k, n};
    for (int other = 0; other < 3; ++other) {
      const It& o = *iterators[other];
      EXPECT(c, (i == o) == (j == indices[other]) && (i != o) == (j != indices[other]), "comparison at", j, "with an iterator at", indices[other]);
      EXPECT(c, (o == i) == (j == indices[other]) && (o != i) == (j != indices[other]), "comparison of an iterator at", indices[other], "with one at", j);
    }
    if (j < n) {
      at(i, j);
    }
    c.step();
  };
  verify(it, k);
  for (int d = 0; d < depth; ++d) {
    const int op = c.pick(6);
    switch (op) {
      case 0: { // ++it
        if (k == n) {
          c.prune();
        }
        c.note("++it");
        It& r = ++it;
        EXPECT(c, &r == &it);
        ++k;
        break;
      }
      case 1: { // it++
        if (k == n) {
          c.prune();
        }
        c.note("it++");
        It old = it++;
        ++k;
        verify(old, k - 1);
        break;
      }
      case 2: { // it += m
        const long m = c.range(0, n - k);
        c.note("it += ", m);
        It& r = (it += m);
        EXPECT(c, &r == &it);
        k += m;
        break;
      }
      case 3: { // it -= m
        const long m = c.range(0, k);
        c.note("it -= ", m);
        It& r = (it -= m);
        EXPECT(c, &r == &it);
        k -= m;
        break;
      }
      case 4: { // copy
        c.note("copy");
        It copy = it;
        if (k < n) {
          ++copy;
          verify(copy, k + 1);
        }
        break;
      }
      default: { // *it++
        if (k == n) {
          c.prune();
        }
        c.note("*it++");
        It copy = it;
        const auto v = *it++;
        EXPECT(c, mc::same(v, *copy), "*it++ is", v);
        ++k;
      }
    }
    verify(it, k);
  }
}

template <typename T>
void axis(mc::Ctx& c) {
  const T u = unit<T>();
  const T front = u * T(c.range(-3, 3));
  const T back = u * T(c.range(-6, c.tier(7, 12)));
  const T step = u * T(c.range(1, 4));
  c.shard();
  c.note("front ", front, " back ", back, " step ", step);
  AxisSampling<T> s {front, back, step};
  const auto expected = expected21(front, back, step);
  EXPECT(c, s.size() == expected.size(), "size is", s.size(), "instead of", expected.size());
  EXPECT_EQ(c, s.vector(), expected);
  std::vector<T> looped;
  for (auto v : s) {
    looped.push_back(v);
    EXPECT(c, looped.size() <= expected.size());
  }
  EXPECT_EQ(c, looped, expected);
  looped.clear();
  for (auto it = s.begin(); it != s.end(); it++) {
    looped.push_back(*it);
    EXPECT(c, looped.size() <= expected.size());
  }
  EXPECT_EQ(c, looped, expected);
  c.step(4);
  c.outcome(expected);
  if (front == -2 * u || front == u) {
    walk(c, s.begin(), s.end(), long(expected.size()), c.tier(3, 4), false, [&](auto& it, long k) {
      EXPECT(c, *it == expected[k], "value", k, "is", *it, "instead of", expected[k]);
    });
  }
}

// The back is very slightly below or above a sample: no tolerance (all the operations are exact)
template <typename T>
void nearBack(mc::Ctx& c) {
  const long front = c.range(-2, 2);
  const long count = c.range(1, 4);
  const long step = c.of(std::vector<long> {1, 2, 4});
  const int digits = c.range(10, std::numeric_limits<T>::digits - 8);
  const int side = c.range(-1, 1);
  c.shard();
  const T delta = std::ldexp(T(1), -digits);
  const T back = T(front + count * step) + T(side) * delta;
  AxisSampling<T> s {T(front), back, T(step)};
  std::vector<T> expected;
  for (long k = 0; k <= count + 1; ++k) {
    if (T(front + k * step) <= back) {
      expected.push_back(T(front + k * step));
    }
  }
  c.note("front ", front, " step ", step, " back is ", side, " times 2^-", digits, " after sample ", count);
  EXPECT_EQ(c, s.size(), expected.size());
  EXPECT_EQ(c, s.vector(), expected);
  c.step(2);
  c.outcome(expected);
}

// More samples than 8 or 16 bits can count
template <typename T>
void wide(mc::Ctx& c) {
  const long n = c.of<long>({255, 256, 257, 300, 65535, 65536, 65537, 70001});
  const long step = c.of<long>({1, 2, 3, 255, 256, 257, 1000});
  const long front = c.of<long>({0, 1, 299, 65536});
  const long stride = c.of<long>({1, 3});
  c.shard();
  c.note("size ", n, " step ", step, " front ", front, " stride ", stride);
  std::vector<Index> indices;
  for (long i = front; i < n; i += step) {
    indices.push_back(i);
  }
  AxisSampling<T> axis {T(front), T(n - 1), T(step)};
  EXPECT_EQ(c, axis.size(), indices.size());
  const std::vector<T> scalars(indices.begin(), indices.end());
  EXPECT_EQ(c, axis.vector(), scalars);
  std::vector<int> data(n * stride);
  for (std::size_t i = 0; i < data.size(); ++i) {
    data[i] = int(i);
  }
  DataSamples<int> s(data.data(), n, {front, c.flip() ? n - 1 : Limits<Index>::inf(), step}, stride);
  EXPECT_EQ(c, s.count(), indices.size());
  std::size_t k = 0;
  for (auto& e : s) {
    EXPECT(c, k < indices.size(), "too many samples");
    EXPECT(c, &e == &data[indices[k] * stride], "sample", k, "is at", &e - data.data(), "instead of", indices[k] * stride);
    ++k;
  }
  EXPECT_EQ(c, k, indices.size());
  for (std::size_t i : remarkable(indices.size())) {
    auto it = s.begin();
    it += i;
    EXPECT(c, &*it == &data[indices[i] * stride], "jump by", i);
  }
  const auto v = s.vector();
  EXPECT(c, v.size() == indices.size(), "vector");
  for (std::size_t i = 0; i < v.size(); ++i) {
    EXPECT(c, v[i] == int(indices[i] * stride), "element", i, "of the vector");
  }
  c.step(4);
  c.outcome(indices);
}

// Samples in data with guards
template <typename T>
struct Data21 {
  std::vector<T> buffer;
  std::vector<T> before;
  static constexpr std::size_t Margin = 8;
  explicit Data21(std::size_t n) {
    for (std::size_t i = 0; i < n + 2 * Margin; ++i) {
      buffer.push_back(T(i * 3 + 1));
    }
    before = buffer;
  }
  T* data() {
    return buffer.data() + Margin;
  }
};

template <typename T>
void samples(mc::Ctx& c) {
  const long size = c.range(0, c.tier(7, 12));
  const long stride = c.range(1, c.tier(2, 3));
  const bool toEnd = c.flip();
  const long front = c.range(0, std::min(size, 3L));
  const long back = toEnd ? size - 1 : c.range(-1, size - 1);
  const long step = c.range(1, 3);
  c.shard();
  c.note("size ", size, " stride ", stride, " front ", front, " back ", toEnd ? std::string("default") : std::to_string(back), " step ", step);
  Data21<T> d(size * stride);
  IndexSampling sampling;
  sampling.front = front;
  sampling.step = step;
  if (!toEnd) {
    sampling.back = back;
  }
  DataSamples<T> s(d.data(), size, sampling, stride);
  const auto indices = expected21<Index>(front, back, step);
  EXPECT(c, s.size() == std::size_t(size) && s.count() == indices.size(), "count", s.count(), "instead of", indices.size());
  EXPECT(c, s.front() == front && s.back() == back && s.step() == step && s.stride() == stride && s.data() == d.data());
  std::vector<T> expected;
  for (auto i : indices) {
    expected.push_back(d.data()[i * stride]);
  }
  const DataSamples<T>& k = s;
  EXPECT(c, k.data() == d.data());
  EXPECT_EQ(c, k.vector(), expected);
  std::vector<T> looped;
  for (auto it = k.begin(); it != k.end(); ++it) {
    looped.push_back(*it);
    EXPECT(c, looped.size() <= expected.size(), "const iteration does not end at the last sample");
  }
  EXPECT_EQ(c, looped, expected);
  DataSamples<const T> cs(d.data(), size, sampling, stride);
  looped.clear();
  for (const auto& v : cs) {
    looped.push_back(v);
    EXPECT(c, looped.size() <= expected.size(), "iteration over constant data does not end at the last sample");
  }
  EXPECT_EQ(c, looped, expected);
  // Writing
  std::size_t n = 0;
  for (auto& v : s) {
    EXPECT(c, n < indices.size(), "iteration does not end at the last sample");
    EXPECT(c, &v == d.data() + indices[n] * stride, "sample", n, "is at", &v - d.data(), "instead of", indices[n] * stride);
    v = T(200);
    ++n;
  }
  EXPECT(c, n == indices.size());
  auto after = d.before;
  for (auto i : indices) {
    after[Data21<T>::Margin + i * stride] = T(200);
  }
  EXPECT_EQ(c, d.buffer, after);
  c.step(5);
  c.outcome(expected);
  // Histories of iterator operations
  if (size < c.tier(6, 9) && front != 2) {
    auto at = [&](auto& it, long j) {
      EXPECT(c, &*it == d.data() + indices[j] * stride, "iterator", j, "is at", &*it - d.data());
    };
    if (c.flip()) {
      walk(c, s.begin(), s.end(), long(indices.size()), 3, false, at);
    } else {
      walk(c, cs.begin(), cs.end(), long(indices.size()), 2, false, at);
    }
  }
}

// Moving the samples
template <typename T>
void moves(mc::Ctx& c) {
  const long size = c.range(1, 3);
  const long stride = c.range(1, 2);
  const long front = c.range(0, size - 1);
  const long step = c.range(1, 2);
  const long margin = 700;
  c.shard();
  c.note("size ", size, " stride ", stride, " front ", front, " step ", step);
  std::vector<T> buffer(2 * margin + size * stride);
  for (std::size_t i = 0; i < buffer.size(); ++i) {
    buffer[i] = T(i % 251);
  }
  const auto before = buffer;
  DataSamples<T> s(buffer.data() + margin, size, {front, Limits<Index>::inf(), step}, stride);
  const auto indices = expected21<Index>(front, size - 1, step);
  long o = 0;
  auto verify = [&](DataSamples<T>& t, long offset) {
    EXPECT(c, t.data() == buffer.data() + margin + offset, "data pointer moved by", t.data() - buffer.data() - margin, "instead of", offset);
    EXPECT(c, t.front() == front && t.back() == size - 1 && t.step() == step && t.stride() == stride && t.size() == std::size_t(size) && t.count() == indices.size());
    std::size_t n = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++n) {
      EXPECT(c, n < indices.size() && &*it == buffer.data() + margin + offset + indices[n] * stride, "sample", n);
    }
    EXPECT(c, n == indices.size());
    c.step();
  };
  for (int i = 0; i < c.tier(4, 6); ++i) {
    switch (c.pick(5)) {
      case 0: {
        c.note("++s");
        auto& r = ++s;
        EXPECT(c, &r == &s);
        ++o;
        break;
      }
      case 1: {
        c.note("s++");
        auto old = s++;
        verify(old, o);
        ++o;
        break;
      }
      case 2: {
        const long n = c.of({5, 130, -2});
        c.note("s += ", n);
        auto& r = (s += n);
        EXPECT(c, &r == &s);
        o += n;
        break;
      }
      case 3: {
        const long n = c.of({3, -1});
        c.note("s -= ", n);
        auto& r = (s -= n);
        EXPECT(c, &r == &s);
        o -= n;
        break;
      }
      default: {
        c.note("copy");
        auto copy = s;
        copy += 7;
        verify(copy, o + 7);
        s = copy;
        o += 7;
      }
    }
    verify(s, o);
  }
  EXPECT_EQ(c, buffer, before);
  c.outcome(std::vector<long> {o});
}

template <Index N>
void positions(mc::Ctx& c) {
  const Index dim = N == -1 ? c.range(1, 3) : N;
  Coord f, b, st;
  for (Index i = 0; i < dim; ++i) {
    f.push_back(dim < 4 || i == 0 ? c.of({-1, 0, 2}) : i - 1);
    b.push_back(c.range(f.back() - (i == 0), f.back() + (dim < 3 ? 5 : dim == 3 ? 2 : 1)) + (dim < 4 ? 0 : i));
    st.push_back(dim < 5 || i % 2 ? c.range(1, dim < 3 ? 3 : 2) : i + 1);
    if (i == 0) {
      c.shard();
    }
  }
  const bool unitStep = c.flip();
  if (unitStep) {
    if (product(st) != 1) {
      c.prune();
    }
  }
  c.note("front ", f, " back ", b, " step ", st);
  const Box<N> box(pos<N>(f), pos<N>(b));
  const PositionSampling<N> s = unitStep ? PositionSampling<N>(box) : PositionSampling<N>(box, pos<N>(st));
  const auto shape = s.shape();
  EXPECT(c, Index(shape.size()) == dim, "dimension is", shape.size(), "instead of", dim);
  for (Index i = 0; i < dim; ++i) {
    const auto e = expected21<Index>(f[i], b[i], st[i]);
    EXPECT(c, shape[i] == Index(e.size()), "along", i, "shape is", shape[i], "instead of", e.size());
    EXPECT_EQ(c, s.along(i).vector(), e);
    c.step();
  }
  EXPECT(c, &s.template along<0>() == &s.along(0));
  c.outcome(coord<N>(shape));
}

TINSTANCE(axis, Index);
TINSTANCE(axis, int);
TINSTANCE(axis, double);
TINSTANCE(axis, float);
TINSTANCE(nearBack, double);
TINSTANCE(nearBack, float);
TINSTANCE(wide, Index);
TINSTANCE(wide, int);
TINSTANCE(wide, float);
TINSTANCE(wide, double);
TINSTANCE(samples, int);
TINSTANCE(samples, double);
TINSTANCE(samples, unsigned char);
TINSTANCE(moves, int);
TINSTANCE(moves, unsigned char);
TINSTANCE(moves, float);
TINSTANCE(moves, std::complex<double>);
TINSTANCE(positions, 1);
TINSTANCE(positions, 2);
TINSTANCE(positions, 3);
TINSTANCE(positions, 4);
TINSTANCE(positions, 5);
TINSTANCE(positions, -1);
// The other supported types
TINSTANCE(axis, long double);
TINSTANCE(axis, long long);
TINSTANCE(moves, char);
TINSTANCE(moves, short);
TINSTANCE(moves, unsigned short);
TINSTANCE(moves, unsigned);
TINSTANCE(moves, long);
TINSTANCE(moves, unsigned long);
TINSTANCE(moves, long long);
TINSTANCE(moves, unsigned long long);
TINSTANCE(moves, long double);
TINSTANCE(moves, std::complex<float>);
TINSTANCE(moves, std::complex<long double>);
TINSTANCE(moves, double);
