// Reference-model helpers shared by the harnesses: plain std::vector arithmetic on coordinates.
#ifndef UTIL_HPP
#define UTIL_HPP
#include "LitlRaster/Raster.h"
#include "mc.hpp"

using Litl::Index;
using Coord = std::vector<Index>;

template <Index N>
Litl::Position<N> pos(const Coord& v) {
  Litl::Position<N> p(static_cast<Index>(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i) {
    p[i] = v[i];
  }
  return p;
}

template <Index N>
Coord coord(const Litl::Position<N>& p) {
  return Coord(p.begin(), p.end());
}

// All positions of the box [f, b], first coordinate fastest; none if empty
inline std::vector<Coord> boxPositions(const Coord& f, const Coord& b) {
  std::vector<Coord> out;
  for (std::size_t i = 0; i < f.size(); ++i) {
    if (b[i] < f[i]) {
      return out;
    }
  }
  Coord p = f;
  for (;;) {
    out.push_back(p);
    std::size_t i = 0;
    while (i < p.size() && p[i] == b[i]) {
      p[i] = f[i];
      ++i;
    }
    if (i == p.size()) {
      return out;
    }
    ++p[i];
  }
}

inline std::vector<Coord> shapePositions(const Coord& s) {
  Coord f(s.size(), 0), b = s;
  for (auto& e : b) {
    --e;
  }
  return boxPositions(f, b);
}

inline Index product(const Coord& s) {
  Index n = 1;
  for (auto e : s) {
    n *= e;
  }
  return n;
}

inline Index offsetOf(const Coord& s, const Coord& p) {
  Index o = 0, stride = 1;
  for (std::size_t i = 0; i < s.size(); ++i) {
    o += p[i] * stride;
    stride *= s[i];
  }
  return o;
}

inline bool inside(const Coord& s, const Coord& p) {
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (p[i] < 0 || p[i] >= s[i]) {
      return false;
    }
  }
  return true;
}

// Pick a huge shape: more than 2^31, 2^32 or 2^40 pixels (never allocated)
inline Coord pickHugeShape(mc::Ctx& c, Index dim) {
  Coord s;
  const Index limit = Index(1) << 60;
  Index n = 1;
  for (Index i = 0; i < dim; ++i) {
    Coord lengths;
    for (Index l : {Index(1), Index(3), Index(255), Index(65537), (Index(1) << 31) - 1, (Index(1) << 31) + 5, (Index(1) << 33) + 1}) {
      if (l <= limit / n) {
        lengths.push_back(l);
      }
    }
    s.push_back(lengths[c.pick(int(lengths.size()))]);
    n *= s.back();
  }
  return s;
}

// Corners, and positions near them, of a huge box
inline std::vector<Coord> hugePositions(const Coord& s) {
  std::vector<Coord> out {Coord()};
  for (auto l : s) {
    std::vector<Coord> next;
    std::vector<Index> values {0, 1, l / 2, l - 1};
    std::sort(values.begin(), values.end());
    values.erase(std::unique(values.begin(), values.end()), values.end());
    for (const auto& p : out) {
      for (auto v : values) {
        if (v < l) {
          next.push_back(p);
          next.back().push_back(v);
        }
      }
    }
    out = next;
  }
  return out;
}

// Pretend address of a huge array: never accessed
template <typename T>
T* hugeAddress() {
  return reinterpret_cast<T*>(std::uintptr_t(1) << 20);
}
template <typename T>
Index hugeOffset(const T* p) {
  return Index((reinterpret_cast<std::uintptr_t>(p) - (std::uintptr_t(1) << 20)) / sizeof(T));
}

// Pick a shape of dimension dim with lengths in [lo, hi]
inline Coord pickShape(mc::Ctx& c, Index dim, Index lo, Index hi) {
  Coord s;
  for (Index i = 0; i < dim; ++i) {
    s.push_back(c.range(lo, hi));
  }
  return s;
}

inline Coord plus(Coord a, const Coord& b, Index sign = 1) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += sign * b[i];
  }
  return a;
}
inline Coord plus(Coord a, Index v) {
  for (auto& e : a) {
    e += v;
  }
  return a;
}

// Every size up to lo (thorough: 4 lo), then those around powers of two: blocking, unrolling and vectorization thresholds
inline std::size_t pickDenseSize(mc::Ctx& c, long lo = 70, long hi = 1100, int wide = 4) {
  std::vector<std::size_t> sizes;
  const long all = c.tier(lo, 4 * lo);
  for (long n = 0; n <= all; ++n) {
    sizes.push_back(n);
  }
  for (long p = 64; p <= c.tier(hi, 8 * hi); p *= 2) {
    for (long n : {p - 1, p, p + 1, p + p / 2 - 1}) {
      if (n > all) {
        sizes.push_back(n);
      }
    }
  }
  for (long n : {70001, 65536, 65537, 65535}) { // Beyond 16 bits
    if (wide-- > 0) {
      sizes.push_back(n);
    }
  }
  return sizes[c.pick(int(sizes.size()))];
}

// Shapes with one axis (any of them) longer than 8 or 16 bits, the others being short
inline Coord pickWideShape(mc::Ctx& c, Index dim, std::vector<Index> lengths = {70001, 65536, 300}) {
  Coord s(dim, 1);
  const int axis = c.pick(int(dim));
  for (Index i = 0; i < dim; ++i) {
    s[i] = i == axis ? c.of(lengths) : i < 2 ? 2 : 1;
  }
  return s;
}

// Next position of a box in storage order
inline void nextPosition(Coord& p, const Coord& front, const Coord& back) {
  for (std::size_t i = 0; i < p.size(); ++i) {
    if (++p[i] <= back[i]) {
      return;
    }
    p[i] = front[i];
  }
}

// All indices if n is small; otherwise, those around the ends, the middle and powers of two
inline std::vector<std::size_t> remarkable(std::size_t n, std::size_t small = 40) {
  std::vector<std::size_t> out;
  for (std::size_t i = 0; i < n; ++i) {
    bool keep = n <= small || i < 2 || i + 2 >= n || i == n / 2;
    for (std::size_t p = 4; p <= n; p *= 2) {
      keep = keep || i + 1 == p || i == p;
    }
    if (keep) {
      out.push_back(i);
    }
  }
  return out;
}

template <typename T>
struct Make {
  static T value(long v) {
    return T(v);
  }
};
template <typename T>
struct Make<std::complex<T>> {
  static std::complex<T> value(long v) {
    return {T(v), T(-2 * v + 1)};
  }
};

#endif
