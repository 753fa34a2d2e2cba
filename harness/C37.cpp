// C37: failures. Every allocation of every operation fails in turn, every call of a user function throws in turn.
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/ProgramOptions.h"
#include "LitlRun/StepperPipeline.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "util.hpp"
#include <memory>
#include <new>
#include <sstream>
using namespace Litl;

// Fault injector //////////////////////////////////////////////////////////////////////////////////

namespace {
long g_count = -1; // Allocations since armed, or -1
long g_fault = -1; // Index of the allocation to fail, or -1
bool failing() {
  return g_count >= 0 && g_count++ == g_fault;
}
struct Armed {
  explicit Armed(long fault) {
    g_fault = fault;
    g_count = 0;
  }
  ~Armed() {
    g_count = -1;
  }
};
} // namespace

extern "C" {
void* __real_malloc(std::size_t);
void* __wrap_malloc(std::size_t n) {
  return failing() ? nullptr : __real_malloc(n);
}
}

void* operator new(std::size_t n) {
  void* p = failing() ? nullptr : __real_malloc(n ? n : 1);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new[](std::size_t n) {
  return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  return failing() ? nullptr : __real_malloc(n ? n : 1);
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept {
  return operator new(n, t);
}
void operator delete(void* p) noexcept {
  std::free(p);
}
void operator delete[](void* p) noexcept {
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  std::free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
  std::free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  std::free(p);
}

// Operations //////////////////////////////////////////////////////////////////////////////////////

using Result = std::vector<double>;

template <typename TRange>
void append(Result& out, const TRange& in) {
  for (const auto& e : in) {
    out.push_back(double(e));
  }
}
template <typename T>
void appendComplex(Result& out, const T& in) {
  for (const auto& e : in) {
    out.push_back(e.real());
    out.push_back(e.imag());
  }
}

struct Step1 : PipelineStep<void, int> {};
struct Step2 : PipelineStep<Step1, int> {};
struct Pipeline37 : StepperPipeline<Pipeline37> {
  std::vector<int> values;

protected:
  template <typename S>
  void doEvaluate();
  template <typename S>
  typename S::Return doGet();
  template <typename U>
  friend class StepperPipeline;
};
template <>
void Pipeline37::doEvaluate<Step1>() {
  values = {3};
}
template <>
int Pipeline37::doGet<Step1>() {
  return values.at(0);
}
template <>
void Pipeline37::doEvaluate<Step2>() {
  std::vector<int> next(values);
  next.push_back(next[0] + 4);
  values = std::move(next);
}
template <>
int Pipeline37::doGet<Step2>() {
  return values.at(1);
}

struct In37 {
  Raster<float> image;
  Raster<int> integers;
  Raster<double, 3> cube;
  Raster<float, -1> variable;
  AlignedRaster<double> aligned;
  Sequence<int> sequence;
  Raster<std::complex<double>, 2> complexes;

  In37() : image({3, 3}), integers({4, 2}), cube({2, 2, 2}), variable({2, 2, 1}), aligned({3, 2}), sequence(5), complexes({2, 3}) {
    auto f = [](auto& r, int seed) {
      for (std::size_t i = 0; i < r.size(); ++i) {
        r.data()[i] = int(i * (5 + seed) + seed * 3) % 11 - 3;
      }
    };
    f(image, 1);
    f(integers, 2);
    f(cube, 4);
    f(variable, 3);
    f(aligned, 8);
    f(sequence, 5);
    f(complexes, 6);
  }

  Result content() const {
    Result out;
    append(out, image.shape());
    append(out, image);
    append(out, integers.shape());
    append(out, integers);
    append(out, cube.shape());
    append(out, cube);
    append(out, variable.shape());
    append(out, variable);
    append(out, aligned.shape());
    append(out, aligned);
    append(out, sequence);
    append(out, complexes.shape());
    appendComplex(out, complexes);
    return out;
  }
};

struct Operation37 {
  const char* name;
  void (*f)(In37&, Result&);
};

// An assignment, tried again if it fails: the target must remain usable
template <typename T>
void assign(const T& from, T& to) {
  try {
    to = from;
  } catch (const std::bad_alloc&) {
    const long count = g_count;
    g_count = -1; // Disarm
    to = from;
    T other(from);
    to = std::move(other);
    g_count = count;
    throw;
  }
}

#define OP(name, ...) \
  Operation37 { \
    name, [](In37& s, Result& out) { __VA_ARGS__ } \
  }

const Operation37 g_ops[] = {
    OP("raster from shape", append(out, Raster<int>({2, 3}).shape());),
    OP("raster from list", append(out, Raster<int>({2, 1}, {5, 6}));),
    OP("raster from iterable", append(out, Raster<int, -1>({2, 1}, std::vector<int> {5, 6}));),
    OP("valarray raster", append(out, Raster<int, 2, StdHolder<std::valarray<int>>>({2, 3}).shape());),
    OP("aligned raster from shape", AlignedRaster<int> r({2, 3}); r.fill(3); append(out, r);),
    OP("variable raster copy", append(out, Raster<float, -1>(s.variable));),
    OP("raster copy", append(out, Raster<float>(s.image));),
    OP("aligned copy", append(out, AlignedRaster<double>(s.aligned));),
    OP("sequence copy", append(out, Sequence<int>(s.sequence));),
    OP("variable raster assign", Raster<float, -1> r({2}); assign(s.variable, r); append(out, r.shape()); append(out, r);),
    OP("raster assign", Raster<float> r({1, 1}); assign(s.image, r); append(out, r.shape()); append(out, r);),
    OP("aligned assign", AlignedRaster<double> r({1, 1}); r.fill(2); assign(s.aligned, r); append(out, r.shape()); append(out, r);),
    OP("aligned assign to larger", AlignedRaster<double> r({5, 5}); r.fill(2); assign(s.aligned, r); append(out, r);),
    OP("aligned buffer assign", AlignedBuffer<int> a(3); std::fill_n(const_cast<int*>(a.data()), 3, 5); AlignedBuffer<int> b(2, nullptr, 16);
       std::fill_n(const_cast<int*>(b.data()), 2, 7); assign(a, b); out.push_back(b.size()); out.push_back(b.data()[2]);),
    OP("aligned buffer assign to sharing", int data[2] = {1, 2}; AlignedBuffer<int> a(3); std::fill_n(const_cast<int*>(a.data()), 3, 5);
       AlignedBuffer<int> b(2, data); assign(a, b); out.push_back(b.size()); out.push_back(b.data()[2]);),
    OP("sequence assign", Sequence<int> r(2); assign(s.sequence, r); append(out, r);),
    OP("moves", Raster<float, -1> r(s.variable); Raster<float, -1> t(std::move(r)); r = std::move(t); std::vector<float> v; r.moveTo(v); append(out, v);),
    OP("arithmetic", append(out, s.image + 2.f * s.image); append(out, s.variable - s.variable); append(out, -s.aligned * 3.);),
    OP("math", append(out, exp(s.image)); append(out, pow(s.aligned, 2.)); appendComplex(out, sqrt(s.complexes));),
    OP("complex parts", append(out, real(s.complexes)); append(out, norm(s.complexes));),
    OP("in place", auto r = s.image; r += s.image; r.apply([](float a) { return a + 1; }); append(out, r);),
    OP("distribution", auto d = s.image.distribution(); out.push_back(d.median()); out.push_back(d.quantile(.2)); out.push_back(d.mad());
       out.push_back(d.variance()); append(out, d.histogram(std::vector<double> {-3, 0, 5}));),
    OP("boxes", append(out, (Box<-1>({0, 0}, {1, 1}) + Position<-1>({1, 2})).front()); for (const auto& p : Box<-1>({0, 0}, {1, 1})) { append(out, p); }
       for (const auto& b : Box<2>({0, 0}, {1, 1}).surround(Box<2>({-1, -1}, {1, 1}))) { append(out, b.front()); }),
    OP("variable boxes", for (const auto& b : Box<-1>({0, 0}, {1, 1}).surround(Box<-1>({-1, -1}, {1, 1}))) { append(out, b.front()); }),
    OP("balls", for (const auto& p : Ball<2, 1>(1, Position<2> {1, 0})) { append(out, p); }),
    OP("sections", append(out, s.cube.section(1)); append(out, s.cube.slice<1>(Box<3>({0, 1, 1}, {1, 1, 1}))); append(out, s.image.subraster({{1, 0}, {2, 1}}));
       append(out, s.variable.section(0));),
    OP("samplings", append(out, AxisSampling<Index> {0, 5, 2}.vector()); DataSamples<int> samples {s.integers.data(), s.integers.size()}; append(out, samples);),
    OP("access", out.push_back(s.variable.at({-1, 0, 0})); out.push_back(s.image.at({-1, -2}));),
    OP("extrapolation", const auto e = extrapolate<NearestNeighbor>(s.image); out.push_back(e[{-1, 5}]); const auto v = extrapolate<Periodic>(s.variable);
       out.push_back(v[{-1, 5, 2}]);),
    OP("interpolation", const auto e = extrapolate<NearestNeighbor>(s.image); out.push_back(interpolate<Linear>(e)(Vector<double, 2> {-.5, .25}));
       out.push_back(interpolate<Cubic>(e)(Vector<double, 2> {-.5, .25}));),
    OP("kernel", auto k = kernelize(Raster<float>({2, 2}, std::vector<float> {1, -2, .5, 3}), Position<2>({1, 0}));
       append(out, k * extrapolate<NearestNeighbor>(s.image));),
    OP("separable kernel", const auto k = SeparableKernel<int, 0, 1>::sobel(); append(out, k * s.integers);),
    OP("kernel 1D", const Kernel1d<int> k(std::vector<int> {1, 3, -1}, 1); append(out, k.correlateAlong<1, double>(s.integers));
       Raster<int> r({2, 1}); k.sparseCorrelate2dTo(s.integers, PositionSampling<2>({{0, 0}, {3, 1}}, {2, 2}), r); append(out, r);),
    OP("median", MedianFilter<float, 2> m(1); append(out, m.apply(extrapolate<NearestNeighbor>(s.image)));),
    OP("noise", auto r = abs(s.integers); r.apply(PoissonNoise<int>(3, 1)); r.apply(StablePoissonNoise<int>(2, 5));
       r.apply(ImpulseNoise<int>::saltAndPepper(.3, .3, 100, -100, 2)); append(out, r);),
    OP("real DFT", appendComplex(out, realDft(s.cube)); RealDft<2> plan({3, 2}); auto inverse = plan.inverse();
       std::copy(s.aligned.begin(), s.aligned.end(), plan.in().begin()); plan.transform(); inverse.transform().normalize();),
    OP("complex DFT", appendComplex(out, complexDft(s.complexes)); ComplexDft<2> plan({2, 3}); auto next = plan.compose<ComplexDft<2>>(plan.outShape());
       std::copy(s.complexes.begin(), s.complexes.end(), plan.in().begin()); plan.transform(); next.transform(); appendComplex(out, next.out());),
    OP("options", ProgramOptions o; o.positional<std::string>("file", "File"); o.named<int>("value,v", "Value", 1); o.flag("flag", "Flag");
       o.parse(std::vector<std::string> {"prog", "name", "--value", "3", "--flag"}); out.push_back(o.as<int>("value")); out.push_back(o.has("flag"));
       out.push_back(o.as<std::string>("file").size());),
    OP("pipeline", Pipeline37 p; try { out.push_back(p.get<Step2>()); } catch (const std::bad_alloc&) {
      const long count = g_count;
      g_count = -1;
      if (p.get<Step2>() != 7 || !p.evaluated<Step1>() || !p.evaluated<Step2>()) {
        throw std::runtime_error("pipeline broken by a failure");
      }
      g_count = count;
      throw;
    } out.push_back(p.evaluated<Step1>());),
    OP("chronometer", Chronometer<std::chrono::hours> ch; ch.start(); try { ch.stop(); } catch (const std::bad_alloc&) {
      const long count = g_count;
      g_count = -1;
      ch.start();
      ch.stop();
      if (ch.count() < 1 || ch.increments().size() != ch.count()) {
        throw std::runtime_error("chronometer broken by a failure");
      }
      g_count = count;
      throw;
    } out.push_back(ch.count()); out.push_back(ch.stdev());),
    OP("print", std::ostringstream os; os.exceptions(std::ios::badbit); os << s.image << s.variable.shape(); out.push_back(os.str().size());),
    OP("exceptions", try { s.image.at({5, 0}); } catch (const OutOfBoundsError& e) { out.push_back(std::string(e.what()).size()); }
       try { Raster<int>({2, 2}, std::vector<int> {1}); } catch (const Exception& e) { out.push_back(1); }),
};

SCENARIO(allocationFailures) {
  const Operation37& op = g_ops[c.pick(int(sizeof(g_ops) / sizeof(*g_ops)))];
  const bool twice = c.flip(); // Second failure, or not
  c.shard();
  c.note(op.name);
  In37 in;
  const Result before = in.content();
  Result expected;
  op.f(in, expected); // Library initializations
  long count = 0;
  {
    Result again;
    again.reserve(1000);
    expected.clear();
    mc::Live live;
    {
      Armed armed(-1);
      op.f(in, again);
      count = g_count;
    }
    const long left = live.blocks();
    EXPECT(c, left == 0, "blocks left without failure:", left);
    expected = again;
  }
  if (count == 0) {
    c.prune();
  }
  for (int repeat = 0; repeat < (twice ? 2 : 1); ++repeat) {
    const long k = c.range(0, count - 1);
    c.note("; allocation ", k, " of ", count, " fails");
    Result out;
    out.reserve(1000);
    bool thrown = false;
    std::string error;
    error.reserve(1000);
    mc::Live live;
    {
      Armed armed(k);
      try {
        op.f(in, out);
      } catch (const std::bad_alloc&) {
        thrown = true;
      } catch (const mc::Violation&) {
        throw;
      } catch (const std::exception& e) {
        g_count = -1;
        error = e.what();
      }
    }
    const long left = live.blocks();
    EXPECT(c, error.empty(), "another exception than bad_alloc:", error);
    if (std::string(op.name) != "options") { // Boost leaks the values passed to add_options() when it fails
      EXPECT(c, left == 0, "blocks not freed after the failure:", left);
    }
    if (!thrown) { // The operation does without the allocation
      EXPECT(c, out == expected, "result in spite of the failure:", out, "instead of", expected);
    }
    EXPECT(c, in.content() == before, "an input was modified");
    c.outcome(std::vector<long> {long(&op - g_ops), k, thrown});
    c.step(count);
  }
  Result after;
  op.f(in, after);
  EXPECT(c, after == expected, "result after the failure:", after, "instead of", expected);
  EXPECT(c, in.content() == before, "an input was modified");
}

// A user function throws at some call: what was not reached is untouched, inputs are unchanged, and everything may be used again
struct Stop {};

template <typename C>
void check37(mc::Ctx& c, C x, const char* name) {
  using T = std::decay_t<decltype(x[0])>;
  const std::size_t n = x.size();
  const int form = c.pick(4);
  const std::size_t k = c.range(0, n); // Call which throws, or none
  c.shard();
  c.note(name, " form ", form, " throws at call ", k);
  const C a = x;
  C b = x;
  for (std::size_t i = 0; i < n; ++i) {
    b[i] = T(2 * i + 1);
  }
  const C kb = b;
  std::vector<std::pair<T, T>> calls;
  std::size_t count = 0;
  const auto f0 = [&]() {
    if (count++ == k) {
      throw Stop();
    }
    return T(40 + count);
  };
  const auto f1 = [&](T v) {
    if (count++ == k) {
      throw Stop();
    }
    return T(v + 50);
  };
  const auto f2 = [&](T v, T w) {
    if (count++ == k) {
      throw Stop();
    }
    return T(v + 2 * w + 50);
  };
  const auto expected = [&](std::size_t i) {
    return form == 0 ? T(40 + i + 1) : form == 1 ? T(a[i] + 50) : form == 2 ? T(kb[i] + 50) : T(a[i] + 2 * kb[i] + 50);
  };
  bool thrown = false;
  for (int run = 0; run < 2; ++run) {
    mc::Live live;
    try {
      if (form == 0) {
        x.generate(f0);
      } else if (form == 1) {
        x.apply(f1);
      } else if (form == 2) {
        x.generate(f1, b);
      } else {
        x.apply(f2, b);
      }
    } catch (const Stop&) {
      thrown = true;
    }
    EXPECT_EQ(c, live.blocks(), 0);
    EXPECT(c, thrown == (k < n), "exception");
    EXPECT(c, count == (thrown ? k + 1 : n), "calls:", count);
    EXPECT(c, x.size() == n);
    EXPECT(c, b == kb, "argument modified");
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, x[i] == expected(i) || (thrown && x[i] == a[i]), "element", i, "is", x[i]);
      EXPECT(c, !thrown || i < k || x[i] == a[i], "element", i, "which was not reached is", x[i]);
    }
    if (!thrown) {
      break;
    }
    x = a; // Again, without throwing
    thrown = false;
    count = k + 1;
    if (form == 0) {
      count = 0;
      x.generate([&] {
        return T(40 + ++count);
      });
    } else if (form == 1) {
      x.apply(f1);
    } else if (form == 2) {
      x.generate(f1, b);
    } else {
      x.apply(f2, b);
    }
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, x[i] == expected(i), "element", i, "afterwards is", x[i]);
    }
    break;
  }
  c.step(n);
  c.outcome(std::vector<long> {form, long(k)});
}

SCENARIO(throwingFunctions) {
  const int kind = c.pick(5);
  const Index n = c.range(0, c.tier(5, 12));
  switch (kind) {
    case 0:
      check37(c, Raster<int, 1>({n}, std::vector<int>(n, 3)), "raster");
      break;
    case 1:
      check37(c, Raster<float, -1>({n, 2}, std::vector<float>(2 * n, 3)), "variable raster");
      break;
    case 2:
      check37(c, Sequence<double>(std::size_t(n)), "sequence");
      break;
    case 3: {
      AlignedRaster<long, 1> r({n});
      r.fill(4);
      check37(c, r, "aligned raster");
      break;
    }
    case 4:
      check37(c, Vector<int, -1>(std::vector<int>(n, 3)), "vector");
      break;
  }
}
