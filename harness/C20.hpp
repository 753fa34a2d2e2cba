#ifndef C20_HPP
#define C20_HPP
// C20: line and separable correlations
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlContainer/Sequence.h"
#include "util.hpp"
#include <set>
#include <map>
using namespace Litl;

template <typename T>
struct Values20 {
  static T image(Index i) {
    return std::is_floating_point<T>::value ? T((i * 37 + 11) % 97) / T(4) : T((i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return std::is_floating_point<T>::value ? T((i * 53 + 5) % 61) / T(2) - T(9) : T((i * 53 + 5) % 61 - (std::is_signed<T>::value ? 13 : 0));
  }
};
// Products and sums beyond the 53 bits of a double
template <typename T>
struct Wide20 {
  static T image(Index i) {
    return T((1L << 31) + (i * 37 + 11) % 97);
  }
  static T kernel(Index i) {
    return T((1L << 22) + (i * 53 + 5) % 61) * T(i % 4 == 3 ? -1 : 1);
  }
};
template <>
struct Values20<long> : Wide20<long> {};
template <>
struct Values20<long double> : Wide20<long double> {};
template <typename S>
struct Values20<std::complex<S>> {
  static std::complex<S> image(Index i) {
    return {Values20<S>::image(i), Values20<S>::image(i + 7)};
  }
  static std::complex<S> kernel(Index i) {
    return {Values20<S>::kernel(i), Values20<S>::kernel(i + 7)};
  }
};

// Cropped sum at index i of a line
template <typename TK, typename F>
auto cropped20(const std::vector<TK>& kernel, Index origin, Index length, Index i, F&& in) {
  decltype(TK() * in(0)) sum {};
  for (Index k = 0; k < Index(kernel.size()); ++k) {
    const Index j = i + k - origin;
    if (j >= 0 && j < length) {
      sum = sum + kernel[k] * in(j);
    }
  }
  return sum;
}

template <typename T>
std::vector<T> kernelValues20(Index size, Index seed, int content = 0) {
  std::vector<T> out;
  for (Index i = 0; i < size; ++i) { // Dense, with null values, constant, symmetric, antisymmetric
    const auto v = Values20<T>::kernel((content == 2 ? 4 : content > 2 ? std::min(i, size - 1 - i) : i) + seed);
    out.push_back(content == 1 && (i + seed) % 3 != 1 ? T {} : content == 4 && i >= size / 2 ? size % 2 == 1 && i == size / 2 ? T {} : T {} - v : v);
  }
  return out;
}

struct Oriented20 {
  Index axis;
  std::vector<int> values;
  Index origin;
};

// Successive line correlations
template <typename T>
std::vector<T> successive20(std::vector<T> in, const Coord& shape, const std::vector<Oriented20>& kernels) {
  for (const auto& k : kernels) {
    Index stride = 1;
    for (Index i = 0; i < k.axis; ++i) {
      stride *= shape[i];
    }
    const Index length = shape[k.axis];
    auto out = in;
    for (std::size_t o = 0; o < in.size(); ++o) {
      const Index i = Index(o) / stride % length;
      const std::vector<T> values(k.values.begin(), k.values.end());
      out[o] = cropped20(values, k.origin, length, i, [&](Index j) {
        return in[Index(o) + (j - i) * stride];
      });
    }
    in = out;
  }
  return in;
}

template <Index J>
SeparableKernel<int, J> oriented20(const Oriented20& k) {
  return LineKernel<int>(k.values, k.origin).template along<J>();
}

template <Index N>
std::vector<Index> shapeOf(const Raster<int, N>& r) {
  std::vector<Index> out;
  for (auto l : r.shape()) {
    out.push_back(l);
  }
  return out;
}

#endif
