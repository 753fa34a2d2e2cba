#ifndef C24_HPP
#define C24_HPP
// C24, C25: discrete Fourier transforms
#include "LitlTransforms/Dft.h"
#include "util.hpp"
using namespace Litl;

using Complex = std::complex<double>;
using Spectrum = std::vector<Complex>;

// Defining sums over a logical shape, sign -1 for direct transforms
inline Spectrum dft24(const Coord& s, const Spectrum& in, int sign) {
  const double pi = std::acos(-1.);
  const auto positions = shapePositions(s);
  Spectrum out;
  for (const auto& k : positions) {
    Complex sum = 0;
    for (std::size_t j = 0; j < positions.size(); ++j) {
      if (in[j] == Complex(0)) {
        continue;
      }
      double phase = 0;
      for (std::size_t i = 0; i < s.size(); ++i) {
        phase += double(positions[j][i] * k[i] % s[i]) / s[i];
      }
      sum += in[j] * std::polar(1., sign * 2 * pi * phase);
    }
    out.push_back(sum);
  }
  return out;
}

inline Coord half24(Coord s) {
  s[0] = s[0] / 2 + 1;
  return s;
}

// Nonnegative frequencies along the first axis
inline Spectrum half24(const Coord& s, const Spectrum& full) {
  Spectrum out;
  for (const auto& p : shapePositions(half24(s))) {
    out.push_back(full[offsetOf(s, p)]);
  }
  return out;
}

template <typename TRaster>
void near24(mc::Ctx& c, const TRaster& got, const Spectrum& expected, const char* what) {
  EXPECT(c, got.size() == expected.size(), what, ": size is", got.size(), "instead of", expected.size());
  double scale = 1;
  for (auto e : expected) {
    scale = std::max(scale, std::abs(e));
  }
  for (std::size_t i = 0; i < expected.size(); ++i) {
    const Complex g = got.data()[i];
    EXPECT(c, std::abs(g - expected[i]) <= 1e-11 * scale, what, ": value", i, "is", g, "instead of", expected[i]);
  }
}

// Dense values
inline double value24(Index i) {
  return double((i * 37 + 11) % 23) - 7.5;
}
inline Complex complex24(Index i) {
  return {value24(i), value24(i * 3 + 5)};
}

inline std::vector<long> rounded24(const Spectrum& v) {
  std::vector<long> out;
  for (auto e : v) {
    out.push_back(std::lround(e.real() * 1000));
    out.push_back(std::lround(e.imag() * 1000));
  }
  return out;
}

template <typename T>
T cast24(Complex v) {
  return T(v.real());
}
template <>
inline Complex cast24<Complex>(Complex v) {
  return v;
}
template <>
inline std::complex<float> cast24<std::complex<float>>(Complex v) {
  return std::complex<float>(v);
}

#endif
