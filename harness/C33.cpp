// flags: -fsanitize=thread
// C33: operations in two threads
#include "C33.hpp"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Ball.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/StructuringElement.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/StepperPipeline.h"
#include "util.hpp"
#include <map>
#include <memory>
#include <sstream>
using namespace Litl;

using Result = std::vector<double>;

template <typename TRange>
void append(Result& out, const TRange& in) {
  for (auto e : in) {
    out.push_back(double(e));
  }
}

// Objects shared by the threads
struct Shared33 {
  Raster<float> image;
  Raster<int> integers;
  Raster<double, 3> cube;
  Raster<float, -1> variable;
  AlignedRaster<double> aligned;
  Extrapolator<Raster<float>, NearestNeighbor> nearest;
  Extrapolator<Raster<int>, Periodic> periodic;
  Extrapolator<Raster<float>, OutOfBoundsConstant<float>> constant;
  Kernel<float, 2> kernel;
  Kernel<int, 2> intKernel;
  MedianFilter<float, 2> median;
  MedianFilter<int, 2> intMedian;
  SeparableKernel<int, 0, 1> separable;
  Kernel1d<int> kernel1d;
  Interpolator<Extrapolator<Raster<float>, NearestNeighbor>, Linear> linear;
  Interpolator<Extrapolator<Raster<float>, NearestNeighbor>, Cubic> cubic;
  Interpolator<Extrapolator<Raster<int>, Periodic>, NearestNeighbor> rounded;
  Box<2> box;

  Shared33() :
      image({3, 3}), integers({4, 2}), cube({2, 2, 2}), variable({2, 2, 1}), aligned({3, 2}),
      nearest(extrapolate<NearestNeighbor>(image)), periodic(extrapolate<Periodic>(integers)), constant(extrapolate(image, 2.f)),
      kernel(kernelize(Raster<float>({2, 2}, std::vector<float> {1, -2, .5, 3}), Position<2>({1, 0}))),
      intKernel(kernelize(Raster<int>({3, 1}, std::vector<int> {1, 2, 4}))), median(1),
      intMedian(Box<2>({-1, 0}, {0, 0})), separable(SeparableKernel<int, 0, 1>::sobel()), kernel1d(std::vector<int> {1, 3, -1}, 1),
      linear(interpolate<Linear>(nearest)), cubic(interpolate<Cubic>(nearest)), rounded(interpolate<NearestNeighbor>(periodic)), box({0, 0}, {1, 1}) {
    fill();
  }

  void fill() {
    auto f = [](auto& r, int seed) {
      for (std::size_t i = 0; i < r.size(); ++i) {
        r.data()[i] = int(i * (5 + seed) + seed * 3) % 11 - 3;
      }
    };
    f(image, 1);
    f(integers, 2);
    f(cube, 4);
    f(variable, 3);
    f(aligned, 8);
  }

  Result content() const {
    Result out;
    append(out, image);
    append(out, integers);
    append(out, cube);
    append(out, variable);
    append(out, aligned);
    return out;
  }
};

// A pipeline
struct First33 {
  using Prerequisite = void;
  using Return = double;
};
struct Second33 {
  using Prerequisite = First33;
  using Return = double;
};
class Pipeline33 : public StepperPipeline<Pipeline33> {
public:
  explicit Pipeline33(double value) : m_value(value) {}
  template <typename S>
  void doEvaluate() {
    m_value = 2 * m_value + 1;
  }
  template <typename S>
  typename S::Return doGet() {
    return m_value;
  }

private:
  double m_value;
};

struct Operation33 {
  const char* name;
  std::function<void(Shared33&, Result&)> f;
};

const std::vector<Operation33>& operations() {
  static const std::vector<Operation33> out {
      {"kernel", [](Shared33& s, Result& out) { append(out, s.kernel * s.nearest); }},
      {"kernel with constant", [](Shared33& s, Result& out) { append(out, s.kernel * s.constant); }},
      {"integer kernel", [](Shared33& s, Result& out) { append(out, s.intKernel * s.periodic); }},
      {"median", [](Shared33& s, Result& out) { append(out, s.median.apply(s.nearest)); }},
      {"even median", [](Shared33& s, Result& out) { append(out, s.intMedian.apply(s.periodic)); }},
      {"separable", [](Shared33& s, Result& out) { append(out, s.separable * s.integers); }},
      {"kernel 1D",
       [](Shared33& s, Result& out) {
         append(out, s.kernel1d.correlateAlong<0, int>(s.integers));
         append(out, s.kernel1d.correlateAlong<1, double>(s.integers));
       }},
      {"sparse kernel 2D",
       [](Shared33& s, Result& out) {
         Raster<int> raster({2, 1});
         s.kernel1d.sparseCorrelate2dTo(s.integers, PositionSampling<2>({{0, 0}, {3, 1}}, {2, 2}), raster);
         append(out, raster);
       }},
      {"linear",
       [](Shared33& s, Result& out) {
         for (double x : {-.5, .25, 1.75}) {
           out.push_back(s.linear(Vector<double, 2> {x, 1.5 - x}));
         }
       }},
      {"cubic",
       [](Shared33& s, Result& out) {
         out.push_back(s.cubic(Vector<double, 2> {.25, .5}));
         out.push_back(s.cubic(Vector<double, 2> {2.25, 1.75}));
       }},
      {"nearest",
       [](Shared33& s, Result& out) {
         for (double x : {-3.5, .25, 7.75}) {
           out.push_back(s.rounded(Vector<double, 2> {x, 1.25}));
         }
       }},
      {"statistics",
       [](Shared33& s, Result& out) {
         auto d = s.image.distribution();
         out.push_back(d.mean());
         out.push_back(d.median());
         out.push_back(d.quantile(.2));
         out.push_back(d.mad());
         out.push_back(d.variance());
         append(out, s.cube.distribution().histogram(std::vector<double> {-3, 0, 5}));
       }},
      {"arithmetic",
       [](Shared33& s, Result& out) {
         append(out, s.image + 2 * s.image);
         append(out, s.variable - s.variable * s.variable);
         out.push_back(s.image == s.image);
       }},
      {"math",
       [](Shared33& s, Result& out) {
         append(out, exp(s.image));
         append(out, pow(abs(s.aligned), 2.));
         const auto m = s.cube.minmax();
         out.push_back(m.first);
         out.push_back(m.second);
       }},
      {"fill",
       [](Shared33& s, Result& out) {
         Raster<int> r({2, 3});
         r.range(3, 2);
         append(out, r);
         r.generate([](int a) { return a * 2; }, r);
         append(out, r);
         r.fill(s.integers[1]);
         append(out, r);
         append(out, Raster<double>({2, 2}).linspace(s.cube[0], 7));
       }},
      {"uniform noise",
       [](Shared33& s, Result& out) {
         UniformNoise<float> noise(-1, 1, 7);
         auto r = s.image;
         r.apply(noise);
         append(out, r);
         r.generate(UniformNoise<float>(0, 5, 3));
         append(out, r);
       }},
      {"Gaussian noise",
       [](Shared33& s, Result& out) {
         auto r = s.cube;
         r.apply(GaussianNoise<double>(0, 2, 11));
         append(out, r);
       }},
      {"Poisson noise",
       [](Shared33& s, Result& out) {
         auto r = abs(s.integers);
         r.apply(PoissonNoise<int>(3, 1));
         append(out, r);
         r.apply(StablePoissonNoise<int>(2, 5));
         append(out, r);
       }},
      {"impulse noise",
       [](Shared33& s, Result& out) {
         auto r = s.integers;
         r.apply(ImpulseNoise<int>::saltAndPepper(.3, .3, 100, -100, 2));
         append(out, r);
       }},
      {"sections",
       [](Shared33& s, Result& out) {
         append(out, s.cube.section(1));
         append(out, static_cast<const Raster<double, 3>&>(s.cube).section(0, 0));
         const auto sub = static_cast<const Raster<float>&>(s.image).subraster({{1, 0}, {2, 1}});
         append(out, sub);
       }},
      {"iterators",
       [](Shared33& s, Result& out) {
         for (const auto& p : s.box) {
           out.push_back(s.image[p]);
         }
         for (const auto& p : s.box + Position<2> {1, 1}) {
           out.push_back(s.image.at(p));
         }
         for (const auto& p : s.variable.domain()) {
           out.push_back(s.variable[p]);
         }
       }},
      {"balls",
       [](Shared33&, Result& out) {
         for (const auto& p : Ball<2, 1>(1, Position<2> {1, 0})) {
           append(out, p);
         }
         for (const auto& p : Ball<2, 2>(1.5, Position<2> {0, 1})) {
           append(out, p);
         }
       }},
      {"copies",
       [](Shared33& s, Result& out) {
         auto a = s.aligned;
         auto b = a;
         a = std::move(b);
         append(out, a);
         Raster<float, -1> v(s.variable);
         append(out, v);
         std::vector<float> moved;
         v.moveTo(moved);
         append(out, moved);
       }},
      {"morphology",
       [](Shared33& s, Result& out) {
         StructuringElement<float, 2> element(Box<2>({-1, 0}, {0, 1}));
         Raster<float> r({3, 3});
         element.erodeTo(s.nearest, r);
         append(out, r);
         element.dilateTo(s.nearest, r);
         append(out, r);
         append(out, element.median(s.nearest));
       }},
      {"pipeline",
       [](Shared33& s, Result& out) {
         Pipeline33 pipeline(s.image[1]);
         out.push_back(pipeline.get<Second33>());
         out.push_back(pipeline.get<First33>());
         out.push_back(pipeline.milliseconds<First33>() >= 0);
       }},
      {"samplings",
       [](Shared33& s, Result& out) {
         append(out, DataSamples<float>(s.image.data(), 9, {1, 8, 3}).vector());
         append(out, PositionSampling<2>(s.box, {1, 1}).shape());
         append(out, AxisSampling<double> {0., 1., .25}.vector());
       }},
      {"errors",
       [](Shared33& s, Result& out) {
         std::string what;
         try {
           OutOfBoundsError::mayThrow("index", long(s.integers[0]) + 100, {0L, 5L});
         } catch (Exception& e) {
           what += e.append("in thread", 1).what();
         }
         try {
           SizeError::mayThrow(s.image.size(), 5);
         } catch (const Exception& e) {
           what += e.what();
         }
         append(out, what);
       }},
      {"boxes",
       [](Shared33& s, Result& out) {
         for (const auto& b : s.cube.domain().surround(Box<3>({-1, 0, -1}, {0, 1, 1}))) {
           append(out, b.front());
           append(out, b.back());
         }
         append(out, clamp(Position<2> {7, -7}, s.box));
         append(out, s.image.shape().extend<3>());
         out.push_back(shapeStride<1>(s.cube.shape()));
       }},
      {"print",
       [](Shared33& s, Result& out) {
         std::ostringstream os;
         os << s.image << s.box.front();
         for (char e : os.str()) {
           out.push_back(e);
         }
       }},
  };
  return out;
}

struct Probe33 {
  Result expected[2];
  std::set<rt::Place> suspects;
  long points[2][2]; // With or without suspects; first thread
  long accesses;
};

struct World33 {
  std::unique_ptr<Shared33> shared;
  Result content;
  std::map<std::pair<int, int>, Probe33> probes;
};

World33& world() {
  static World33 w;
  if (!w.shared) {
    rt::fresh();
    w.shared.reset(new Shared33);
    w.content = w.shared->content();
  }
  return w;
}

void run(mc::Ctx& c, int i, int j, const Probe33& probe, const rt::Options& options, rt::Report& report) {
  auto& w = world();
  auto& s = *w.shared;
  std::unique_ptr<Result[]> results(new Result[2]);
  Result* out = results.get();
  const auto& f = operations()[i].f;
  const auto& g = operations()[j].f;
  report = rt::run(
      [&]() {
        f(s, out[0]);
      },
      [&]() {
        g(s, out[1]);
      },
      options);
  c.step(report.accesses);
  const auto after = s.content();
  if (after != w.content) {
    s.fill();
    c.fail("shared inputs were modified");
  }
  EXPECT(c, !report.errors[0] && !report.errors[1], "exception in a thread");
  EXPECT(c, out[0] == probe.expected[0], operations()[i].name, "gives", out[0], "instead of", probe.expected[0]);
  EXPECT(c, out[1] == probe.expected[1], operations()[j].name, "gives", out[1], "instead of", probe.expected[1]);
}

const Probe33& probe(mc::Ctx& c, int i, int j) {
  auto& w = world();
  const auto it = w.probes.find({i, j});
  if (it != w.probes.end()) {
    return it->second;
  }
  Probe33 p;
  for (int k = 0; k < 2; ++k) { // Alone
    rt::fresh();
    operations()[k ? j : i].f(*w.shared, p.expected[k]);
  }
  rt::Report report;
  for (int first = 0; first < 2; ++first) {
    rt::Options options;
    options.first = first;
    run(c, i, j, p, options, report);
    p.suspects.insert(report.conflicts.begin(), report.conflicts.end());
  }
  for (int coarse = 0; coarse < 2; ++coarse) {
    for (int first = 0; first < 2; ++first) {
      rt::Options options;
      options.first = first;
      options.coarse = coarse;
      options.suspects = &p.suspects;
      run(c, i, j, p, options, report);
      p.points[coarse][first] = report.points;
    }
  }
  p.accesses = report.accesses;
  return w.probes[{i, j}] = p;
}

SCENARIO(pairs) {
  const int n = operations().size();
  const int i = c.pick(n);
  const int j = c.range(i, n - 1);
  c.note(operations()[i].name, " and ", operations()[j].name);
  rt::Options options;
  options.first = c.pick(2);
  c.shard();
  const auto& p = probe(c, i, j);
  options.suspects = &p.suspects;
  // Without conflict, the points are the reads of shared objects
  // Otherwise, they are the accesses to conflicting places, more finely explored, and then the reads, too
  options.coarse = p.suspects.empty() || c.flip();
  const long points = p.points[options.coarse][options.first];
  const int bound = options.coarse ? c.tier(1, points > 250 ? 1 : 2) : points > 400 ? 1 : c.tier(2, points > 100 ? 2 : 3);
  const int switches = c.range(0, bound);
  long remaining = points;
  for (int k = 0; k < switches; ++k) {
    if (remaining < 1) {
      c.prune();
    }
    options.switches.push_back(c.range(0, remaining - 1));
    remaining -= options.switches.back() + 1;
  }
  c.note(options.first ? " (first)" : "", " switches after ", options.switches, " accesses");
  rt::Report report;
  run(c, i, j, p, options, report);
  c.outcome(std::vector<long> {i, j, long(p.suspects.size()), report.points, report.done});
}
