// C24: values of the discrete Fourier transforms
#include "C24.hpp"

// Content: impulse at a position, or dense
inline Spectrum content24(Index n, Index impulse, bool real, bool integer) {
  Spectrum in(n);
  for (Index i = 0; i < n; ++i) {
    Complex v = impulse < 0 ? complex24(i) : i == impulse ? Complex(2, -3) : Complex(0);
    if (integer) {
      v = {std::floor(v.real()), std::floor(v.imag())};
    }
    in[i] = real ? Complex(v.real()) : v;
  }
  return in;
}

template <typename TRaster>
TRaster raster24(const Coord& s, const Spectrum& in) {
  using T = typename TRaster::Value;
  TRaster out(pos<TRaster::Dimension>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    out.data()[i] = cast24<T>(in[i]);
  }
  return out;
}

template <typename TRaster>
Spectrum values24(const TRaster& r) {
  Spectrum out;
  for (std::size_t i = 0; i < r.size(); ++i) {
    out.push_back(Complex(r.data()[i]));
  }
  return out;
}

template <Index N>
Coord shape24(mc::Ctx& c) {
  const Index dim = N == -1 ? 2 : N;
  if (dim == 1) {
    const Index small = c.tier(16, 40);
    const Index n = c.range(1, small + 6);
    return {n <= small ? n : std::vector<Index> {64, 97, 127, 256, 257, 1000}[n - small - 1]};
  }
  // At least 3 lengths: those of length 1 are not seen and 2 of the same length are not told apart
  return pickShape(c, dim, 1, dim == 2 ? c.tier(6, 9) : dim == 3 ? c.tier(4, 5) : dim == 4 ? c.tier(3, 4) : 3);
}

template <Index N>
Coord wideShape24(mc::Ctx& c) {
  if (N == 1) {
    return {c.of<Index>({256, 257, 300, 1025})};
  }
  return N == 2 ? c.of(std::vector<Coord> {{300, 2}, {3, 300}, {257, 1}, {1, 257}, {256, 3}}) : c.of(std::vector<Coord> {{300, 2, 3}, {2, 300, 3}, {3, 2, 300}, {1, 1, 257}});
}

// Position of the impulse, -1 for a dense content
inline Index impulse24(mc::Ctx& c, const Coord& s) {
  const Index n = product(s);
  return n <= 60 ? c.range(-1, n - 1) : c.of<Index>({n <= 1000 ? -1 : n / 3, 0, 1, 2, s[0] - 1, s[0] % n, n / 2, n - s[0], n - 2, n - 1});
}

// Convenience functions
template <typename TReal, typename TComplex>
void functionsOf(mc::Ctx& c, const Coord& s) {
  constexpr Index N = TReal::Dimension;
  const Coord h = half24(s);
  const Index n = product(s);
  const Index impulse = impulse24(c, s);
  c.note("shape ", s, impulse < 0 ? std::string(" dense") : " impulse at " + std::to_string(impulse));
  const bool integer = std::is_integral<typename TReal::Value>::value;
  // Real
  const auto real = content24(n, impulse, true, integer);
  const auto spectrum = dft24(s, real, -1);
  const auto half = half24(s, spectrum);
  auto in = raster24<TReal>(s, real);
  auto out = realDft(in);
  EXPECT_EQ(c, coord<N>(out.shape()), h);
  near24(c, out, half, "realDft");
  EXPECT_EQ(c, values24(in), real);
  auto again = realDft(in);
  EXPECT(c, again.data() != out.data(), "results share their data");
  in.fill(typename TReal::Value(1)); // The result does not depend on the input anymore
  near24(c, out, half, "realDft, after the input was modified");
  const auto before = values24(out);
  auto back = inverseRealDft(out, pos<N>(s));
  EXPECT_EQ(c, coord<N>(back.shape()), s);
  near24(c, back, real, "inverseRealDft");
  EXPECT_EQ(c, values24(out), before);
  out.fill(Complex(1));
  near24(c, back, real, "inverseRealDft, after the input was modified");
  again.fill(Complex(2));
  near24(c, realDft(raster24<TReal>(s, real)), half, "realDft of a temporary");
  // Complex
  const auto complex = content24(n, impulse, false, integer);
  const auto direct = dft24(s, complex, -1);
  auto cin = raster24<TComplex>(s, complex);
  auto cout = complexDft(cin);
  EXPECT_EQ(c, coord<N>(cout.shape()), s);
  near24(c, cout, direct, "complexDft");
  EXPECT_EQ(c, values24(cin), complex);
  auto cback = inverseComplexDft(cout);
  EXPECT_EQ(c, coord<N>(cback.shape()), s);
  near24(c, cback, complex, "inverseComplexDft");
  near24(c, cout, direct, "input of inverseComplexDft");
  // Inverse of any spectrum
  auto inverse = dft24(s, complex, 1);
  for (auto& v : inverse) {
    v /= double(n);
  }
  auto cinverse = inverseComplexDft(cin);
  near24(c, cinverse, inverse, "inverseComplexDft of the spectrum");
  EXPECT_EQ(c, values24(cin), complex);
  EXPECT(c, cout.data() != cback.data() && cinverse.data() != cback.data(), "results share their data");
  c.step(6);
  c.outcome(rounded24(direct));
}

template <typename TReal, typename TComplex>
void functions(mc::Ctx& c) {
  const Coord s = shape24<TReal::Dimension>(c);
  c.shard();
  functionsOf<TReal, TComplex>(c, s);
}

// Long axes
template <typename TReal, typename TComplex>
void wideFunctions(mc::Ctx& c) {
  const Coord s = wideShape24<TReal::Dimension>(c);
  c.shard();
  functionsOf<TReal, TComplex>(c, s);
}

// Plans, with own or user buffers
template <Index N>
void plans(mc::Ctx& c) {
  const Coord s = shape24<N>(c);
  c.shard();
  const Coord h = half24(s);
  const Index n = product(s);
  const Index impulse = impulse24(c, s);
  const bool userIn = c.flip(), userOut = c.flip();
  c.note("shape ", s, impulse < 0 ? std::string(" dense") : " impulse at " + std::to_string(impulse), userIn ? " user in" : "", userOut ? " user out" : "");
  const auto real = content24(n, impulse, true, false);
  const auto spectrum = dft24(s, real, -1);
  const auto half = half24(s, spectrum);
  const auto complex = content24(n, impulse, false, false);
  AlignedRaster<double, N> rbuf(pos<N>(s));
  AlignedRaster<Complex, N> hbuf(pos<N>(h)), abuf(pos<N>(s)), bbuf(pos<N>(s));
  {
    RealDft<N> plan(pos<N>(s), userIn ? rbuf.data() : nullptr, userOut ? hbuf.data() : nullptr);
    EXPECT_EQ(c, coord<N>(plan.logicalShape()), s);
    EXPECT_EQ(c, coord<N>(plan.inShape()), s);
    EXPECT_EQ(c, coord<N>(plan.outShape()), h);
    EXPECT_EQ(c, coord<N>(plan.in().shape()), s);
    EXPECT_EQ(c, coord<N>(plan.out().shape()), h);
    EXPECT(c, plan.normalizationFactor() == double(n));
    auto inverse = plan.inverse();
    EXPECT_EQ(c, coord<N>(inverse.logicalShape()), s);
    EXPECT_EQ(c, coord<N>(inverse.inShape()), h);
    EXPECT_EQ(c, coord<N>(inverse.outShape()), s);
    EXPECT(c, inverse.normalizationFactor() == double(n));
    for (int turn = 0; turn < 2; ++turn) {
      for (Index i = 0; i < n; ++i) {
        plan.in().data()[i] = real[i].real();
      }
      auto& r = plan.transform();
      EXPECT(c, &r == &plan);
      near24(c, plan.out(), half, "RealDft");
      if (turn == 0) {
        inverse.transform().normalize();
        near24(c, inverse.out(), real, "RealDft::Inverse");
      } else {
        inverse.transform();
        auto scaled = real;
        for (auto& v : scaled) {
          v *= double(n);
        }
        near24(c, inverse.out(), scaled, "RealDft::Inverse, not normalized");
      }
    }
  }
  {
    ComplexDft<N> plan(pos<N>(s), userIn ? abuf.data() : nullptr, userOut ? bbuf.data() : nullptr);
    EXPECT_EQ(c, coord<N>(plan.inShape()), s);
    EXPECT_EQ(c, coord<N>(plan.outShape()), s);
    auto inverse = plan.inverse();
    for (int turn = 0; turn < 2; ++turn) {
      const auto& content = turn == 0 ? complex : real;
      std::copy(content.begin(), content.end(), plan.in().data());
      plan.transform();
      near24(c, plan.out(), dft24(s, content, -1), "ComplexDft");
      inverse.transform().normalize();
      near24(c, inverse.out(), content, "ComplexDft::Inverse");
      near24(c, plan.in(), content, "input of ComplexDft");
    }
    // Normalized direct transform
    std::copy(complex.begin(), complex.end(), plan.in().data());
    plan.transform().normalize();
    auto scaled = dft24(s, complex, -1);
    for (auto& v : scaled) {
      v /= double(n);
    }
    near24(c, plan.out(), scaled, "normalized ComplexDft");
  }
  {
    typename ComplexDft<N>::Inverse plan(pos<N>(s), userIn ? abuf.data() : nullptr, userOut ? bbuf.data() : nullptr);
    std::copy(complex.begin(), complex.end(), plan.in().data());
    plan.transform();
    near24(c, plan.out(), dft24(s, complex, 1), "ComplexDft::Inverse of the spectrum");
    auto direct = plan.inverse();
    std::copy(complex.begin(), complex.end(), plan.in().data());
    plan.transform();
    direct.transform().normalize();
    near24(c, direct.out(), complex, "inverse of ComplexDft::Inverse");
  }
  {
    typename RealDft<N>::Inverse plan(pos<N>(s), userOut ? hbuf.data() : nullptr, userIn ? rbuf.data() : nullptr);
    EXPECT_EQ(c, coord<N>(plan.inShape()), h);
    EXPECT_EQ(c, coord<N>(plan.outShape()), s);
    std::copy(half.begin(), half.end(), plan.in().data());
    plan.transform().normalize();
    near24(c, plan.out(), real, "RealDft::Inverse alone");
    auto direct = plan.inverse();
    EXPECT_EQ(c, coord<N>(direct.logicalShape()), s);
    EXPECT_EQ(c, coord<N>(direct.inShape()), s);
    EXPECT_EQ(c, coord<N>(direct.outShape()), h);
    EXPECT(c, direct.normalizationFactor() == double(n));
    direct.transform();
    near24(c, direct.out(), half, "inverse of RealDft::Inverse");
    auto again = direct.inverse();
    EXPECT_EQ(c, coord<N>(again.inShape()), h);
    again.transform().normalize();
    near24(c, again.out(), real, "inverse of the inverse of RealDft::Inverse");
  }
  c.step(8);
  c.outcome(rounded24(spectrum));
}

using Real1 = VecRaster<double, 1>;
using Real2 = VecRaster<float, 2>;
using Real3 = AlignedRaster<double, 3>;
using RealV = VecRaster<int, -1>;
using Complex1 = VecRaster<Complex, 1>;
using Complex2 = VecRaster<std::complex<float>, 2>;
using Complex3 = AlignedRaster<Complex, 3>;
using ComplexV = VecRaster<Complex, -1>;
using Real4 = VecRaster<double, 4>;
using Complex4 = VecRaster<Complex, 4>;
TINSTANCE(functions, Real1, Complex1);
TINSTANCE(wideFunctions, Real1, Complex1);
TINSTANCE(wideFunctions, Real2, Complex2);
TINSTANCE(wideFunctions, Real3, Complex3);
TINSTANCE(functions, Real2, Complex2);
TINSTANCE(functions, Real3, Complex3);
TINSTANCE(functions, Real4, Complex4);
TINSTANCE(functions, RealV, ComplexV);
using Real5 = VecRaster<float, 5>;
using Complex5 = AlignedRaster<Complex, 5>;
TINSTANCE(functions, Real5, Complex5);
TINSTANCE(plans, 1);
TINSTANCE(plans, 2);
TINSTANCE(plans, 3);
TINSTANCE(plans, 4);
TINSTANCE(plans, -1);
