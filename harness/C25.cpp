// C25: histories of transform plans
#include "C24.hpp"

enum Kind { Real, RealInverse, Cplx, CplxInverse };

struct Buffer25 { // Model of a buffer
  Coord shape;
  bool complex;
  bool known; // Contains defined data
  Spectrum content;
  int owner; // Slot or -1 for user buffers and freed ones
  double* data;
  Index doubles() const {
    return product(shape) * (complex ? 2 : 1);
  }
};

template <Index N>
struct Plan25 {
  int kind;
  Coord shape; // Logical
  int in, out; // Buffers
  virtual ~Plan25() = default;
  virtual double* inData() = 0;
  virtual double* outData() = 0;
  virtual Coord inShape() = 0;
  virtual Coord outShape() = 0;
  virtual Coord logicalShape() = 0;
  virtual void transform() = 0;
  virtual void normalize() = 0;
  virtual std::unique_ptr<Plan25> inverse() = 0;
  virtual std::unique_ptr<Plan25> compose(int kind, const Coord& shape) = 0;
  virtual void relocate() = 0;
  virtual void assign(Plan25& other) = 0;
};

template <typename TPlan, Index N>
struct Typed25;

template <Index N>
struct Kinds25 {
  using R = RealDft<N>;
  using RI = typename RealDft<N>::Inverse;
  using C = ComplexDft<N>;
  using CI = typename ComplexDft<N>::Inverse;
};

template <typename TFrom, Index N, typename TIn>
struct Compose25 { // Complex output
  static std::unique_ptr<Plan25<N>> make(TFrom& from, int kind, const Coord& shape) {
    using K = Kinds25<N>;
    switch (kind) {
      case RealInverse:
        return std::make_unique<Typed25<typename K::RI, N>>(from.template compose<typename K::RI>(pos<N>(shape)));
      case Cplx:
        return std::make_unique<Typed25<typename K::C, N>>(from.template compose<typename K::C>(pos<N>(shape)));
      default:
        return std::make_unique<Typed25<typename K::CI, N>>(from.template compose<typename K::CI>(pos<N>(shape)));
    }
  }
};
template <typename TFrom, Index N>
struct Compose25<TFrom, N, double> { // Real output
  static std::unique_ptr<Plan25<N>> make(TFrom& from, int, const Coord& shape) {
    using R = typename Kinds25<N>::R;
    return std::make_unique<Typed25<R, N>>(from.template compose<R>(pos<N>(shape)));
  }
};

template <typename TPlan, Index N>
struct Typed25 : Plan25<N> {
  std::unique_ptr<TPlan> p;
  explicit Typed25(TPlan&& plan) : p(new TPlan(std::move(plan))) {}
  Typed25(const Coord& shape, double* in, double* out) :
      p(new TPlan(pos<N>(shape), reinterpret_cast<typename TPlan::InValue*>(in), reinterpret_cast<typename TPlan::OutValue*>(out))) {}
  double* inData() override {
    const TPlan& k = *p;
    return k.in().data() == p->in().data() ? reinterpret_cast<double*>(p->in().data()) : nullptr;
  }
  double* outData() override {
    const TPlan& k = *p;
    return k.out().data() == p->out().data() ? reinterpret_cast<double*>(p->out().data()) : nullptr;
  }
  Coord inShape() override {
    return coord<N>(p->in().shape()) == coord<N>(p->inShape()) ? coord<N>(p->inShape()) : Coord {};
  }
  Coord outShape() override {
    return coord<N>(p->out().shape()) == coord<N>(p->outShape()) ? coord<N>(p->outShape()) : Coord {};
  }
  Coord logicalShape() override {
    return coord<N>(p->logicalShape());
  }
  void transform() override {
    p->transform();
  }
  void normalize() override {
    p->normalize();
  }
  std::unique_ptr<Plan25<N>> inverse() override {
    return std::make_unique<Typed25<typename TPlan::Inverse, N>>(p->inverse());
  }
  std::unique_ptr<Plan25<N>> compose(int kind, const Coord& shape) override {
    return Compose25<TPlan, N, typename TPlan::OutValue>::make(*p, kind, shape);
  }
  void relocate() override {
    std::unique_ptr<TPlan> q(new TPlan(std::move(*p)));
    p = std::move(q);
  }
  void assign(Plan25<N>& other) override {
    *p = std::move(*dynamic_cast<Typed25&>(other).p);
  }
};

// Recorded choices, such that a history can be run again
struct Choices25 {
  mc::Ctx& c;
  std::vector<int> record;
  std::size_t next;
  bool replay;
  int pick(int n) {
    if (replay) {
      return record[next++];
    }
    record.push_back(c.pick(n));
    return record.back();
  }
  template <typename... Ts>
  void note(Ts&&... args) {
    if (!replay) {
      c.note(std::forward<Ts>(args)...);
    }
  }
};

template <Index N>
struct World25 {
  mc::Ctx& c;
  Choices25& choices;
  std::vector<Buffer25> buffers;
  std::vector<std::unique_ptr<Plan25<N>>> slots;
  std::vector<std::unique_ptr<AlignedRaster<double, N>>> users;
  int fills = 0;
  int filled = -1; // Buffer which has just been filled

  int buffer(const Coord& shape, bool complex, int owner, double* data) {
    buffers.push_back({shape, complex, false, {}, owner, data});
    return int(buffers.size()) - 1;
  }
  int userBuffer(const Coord& shape, bool complex) {
    auto s = shape;
    s[0] *= complex ? 2 : 1;
    users.emplace_back(new AlignedRaster<double, N>(pos<N>(s)));
    return buffer(shape, complex, -1, users.back()->data());
  }
  static bool realIn(int kind) {
    return kind == Real;
  }
  static bool realOut(int kind) {
    return kind == RealInverse;
  }
  static Coord inShape(int kind, const Coord& s) {
    return kind == RealInverse ? half24(s) : s;
  }
  static Coord outShape(int kind, const Coord& s) {
    return kind == Real ? half24(s) : s;
  }

  // Register a created plan, given its shared buffers
  void add(std::unique_ptr<Plan25<N>> plan, int kind, const Coord& shape, int in, int out) {
    const int slot = slots.size();
    plan->kind = kind;
    plan->shape = shape;
    plan->in = in >= 0 ? in : buffer(inShape(kind, shape), !realIn(kind), slot, plan->inData());
    plan->out = out >= 0 ? out : buffer(outShape(kind, shape), !realOut(kind), slot, plan->outData());
    buffers[plan->in].known = false;
    buffers[plan->out].known = false;
    slots.push_back(std::move(plan));
  }
  void create(int kind, const Coord& shape, bool userIn, bool userOut) {
    const int in = userIn ? userBuffer(inShape(kind, shape), !realIn(kind)) : -1;
    const int out = userOut ? userBuffer(outShape(kind, shape), !realOut(kind)) : -1;
    double* i = userIn ? buffers[in].data : nullptr;
    double* o = userOut ? buffers[out].data : nullptr;
    using K = Kinds25<N>;
    std::unique_ptr<Plan25<N>> plan;
    switch (kind) {
      case Real:
        plan = std::make_unique<Typed25<typename K::R, N>>(shape, i, o);
        break;
      case RealInverse:
        plan = std::make_unique<Typed25<typename K::RI, N>>(shape, i, o);
        break;
      case Cplx:
        plan = std::make_unique<Typed25<typename K::C, N>>(shape, i, o);
        break;
      default:
        plan = std::make_unique<Typed25<typename K::CI, N>>(shape, i, o);
    }
    add(std::move(plan), kind, shape, in, out);
  }
  bool hasDependents(int slot) const {
    for (int s = 0; s < int(slots.size()); ++s) {
      if (s != slot && slots[s]) {
        for (int b : {slots[s]->in, slots[s]->out}) {
          if (buffers[b].owner == slot) {
            return true;
          }
        }
      }
    }
    return false;
  }
  void destroy(int slot) {
    slots[slot].reset();
    forget(slot);
  }
  void forget(int slot) {
    for (auto& b : buffers) {
      if (b.owner == slot) {
        b.owner = -2;
      }
    }
  }
  bool alive(const Buffer25& b) const {
    return b.owner != -2;
  }
  std::vector<std::vector<double>> snapshot() const {
    std::vector<std::vector<double>> out;
    for (const auto& b : buffers) {
      out.emplace_back();
      if (alive(b)) {
        out.back().assign(b.data, b.data + b.doubles());
      }
    }
    return out;
  }

  // Check everything after an operation which may write to given buffers
  void verify(const std::vector<std::vector<double>>& before, const std::vector<int>& touched) {
    for (std::size_t i = 0; i < slots.size(); ++i) {
      if (!slots[i]) {
        continue;
      }
      auto& p = *slots[i];
      EXPECT(c, p.inData() == buffers[p.in].data && p.outData() == buffers[p.out].data, "buffers of plan", i, "are not those expected");
      EXPECT_EQ(c, p.inShape(), inShape(p.kind, p.shape));
      EXPECT_EQ(c, p.outShape(), outShape(p.kind, p.shape));
      EXPECT_EQ(c, p.logicalShape(), p.shape);
    }
    for (std::size_t i = 0; i < buffers.size(); ++i) {
      auto& b = buffers[i];
      if (!alive(b)) {
        continue;
      }
      for (std::size_t j = 0; j < i; ++j) {
        const auto& o = buffers[j];
        EXPECT(c, !alive(o) || b.data + b.doubles() <= o.data || o.data + o.doubles() <= b.data, "buffers", i, "and", j, "overlap");
      }
      if (i < before.size() && std::count(touched.begin(), touched.end(), int(i)) == 0) {
        EXPECT(c, std::memcmp(before[i].data(), b.data, sizeof(double) * b.doubles()) == 0, "unrelated buffer", i, "was modified");
      }
      if (b.known) {
        double scale = 1;
        for (auto e : b.content) {
          scale = std::max(scale, std::abs(e));
        }
        for (std::size_t k = 0; k < b.content.size(); ++k) {
          const Complex v = b.complex ? Complex(b.data[2 * k], b.data[2 * k + 1]) : Complex(b.data[k]);
          EXPECT(c, std::abs(v - b.content[k]) <= 1e-11 * scale, "buffer", i, "value", k, "is", v, "instead of", b.content[k]);
        }
      }
    }
    c.step();
  }

  Spectrum apply(int kind, const Coord& s, const Spectrum& in) {
    switch (kind) {
      case Real:
        return half24(s, dft24(s, in, -1));
      case RealInverse: { // Hermitian symmetry
        Spectrum full;
        const auto h = half24(s);
        for (const auto& p : shapePositions(s)) {
          if (p[0] < h[0]) {
            full.push_back(in[offsetOf(h, p)]);
          } else {
            auto q = p;
            for (std::size_t i = 0; i < q.size(); ++i) {
              q[i] = (s[i] - q[i]) % s[i];
            }
            full.push_back(std::conj(in[offsetOf(h, q)]));
          }
        }
        auto out = dft24(s, full, 1);
        for (auto& v : out) {
          v = v.real();
        }
        return out;
      }
      default:
        return dft24(s, in, kind == Cplx ? -1 : 1);
    }
  }

  // Whether a half spectrum is that of a real signal
  bool hermitian(const Coord& s, const Spectrum& in) {
    auto out = apply(RealInverse, s, in);
    for (auto& v : out) {
      v /= double(product(s));
    }
    const auto back = apply(Real, s, out);
    double scale = 1;
    for (auto e : in) {
      scale = std::max(scale, std::abs(e));
    }
    for (std::size_t i = 0; i < in.size(); ++i) {
      if (std::abs(back[i] - in[i]) > 1e-12 * scale) {
        return false;
      }
    }
    return true;
  }

  int pickSlot() {
    std::vector<int> live;
    for (std::size_t i = 0; i < slots.size(); ++i) {
      if (slots[i]) {
        live.push_back(i);
      }
    }
    if (live.empty()) {
      c.prune();
    }
    return live[choices.pick(live.size())];
  }
  std::size_t liveCount() const {
    return std::count_if(slots.begin(), slots.end(), [](const auto& s) {
      return bool(s);
    });
  }

  void operate(const Coord& shape, int kind, std::size_t maxPlans) {
    const auto before = snapshot();
    std::vector<int> touched;
    const int op = choices.pick(9);
    if (op == 0) { // Independent plan
      if (liveCount() >= maxPlans || slots.empty()) {
        c.prune();
      }
      create(kind, shape, false, false);
      choices.note("create");
      filled = -1;
      verify(before, touched);
      return;
    }
    const int i = pickSlot();
    auto& p = *slots[i];
    const int p25 = p.in;
    switch (op) {
      case 1: {
        if (liveCount() >= maxPlans) {
          c.prune();
        }
        choices.note("inverse of ", i);
        static const int inverse[] = {RealInverse, Real, CplxInverse, Cplx};
        touched = {p.in, p.out};
        add(p.inverse(), inverse[p.kind], p.shape, p.out, p.in);
        break;
      }
      case 2: {
        if (liveCount() >= maxPlans) {
          c.prune();
        }
        touched = {p.out};
        const auto out = outShape(p.kind, p.shape);
        if (p.kind == RealInverse) {
          choices.note("compose ", i, " with real");
          add(p.compose(Real, out), Real, out, p.out, -1);
        } else {
          const int k = 1 + choices.pick(3);
          auto logical = out;
          if (k == RealInverse) {
            logical[0] = p.kind == Real ? p.shape[0] : 2 * out[0] - 1;
          }
          choices.note("compose ", i, " with kind ", k);
          add(p.compose(k, logical), k, logical, p.out, -1);
        }
        break;
      }
      case 3: { // Fill
        choices.note("fill ", i);
        auto& b = buffers[p.in];
        if (filled == p.in) { // Twice in a row
          c.prune();
        }
        touched = {p.in};
        b.content.clear();
        const Index n = product(b.shape);
        ++fills;
        if (p.kind == RealInverse) {
          Spectrum real;
          for (Index k = 0; k < product(p.shape); ++k) {
            real.push_back(value24(k + 3 * fills));
          }
          b.content = apply(Real, p.shape, real);
        } else {
          for (Index k = 0; k < n; ++k) {
            b.content.push_back(b.complex ? complex24(k + 5 * fills) : Complex(value24(k + 5 * fills)));
          }
        }
        double* data = p.inData();
        for (Index k = 0; k < n; ++k) {
          if (b.complex) {
            data[2 * k] = b.content[k].real();
            data[2 * k + 1] = b.content[k].imag();
          } else {
            data[k] = b.content[k].real();
          }
        }
        b.known = true;
        break;
      }
      case 4: { // Transform
        auto& in = buffers[p.in];
        auto& out = buffers[p.out];
        if (!in.known) {
          c.prune();
        }
        choices.note("transform ", i);
        touched = {p.in, p.out};
        // The inverse real transform is defined for symmetric spectra
        out.known = p.kind != RealInverse || hermitian(p.shape, in.content);
        if (out.known) {
          out.content = apply(p.kind, p.shape, in.content);
        }
        in.known = false;
        p.transform();
        break;
      }
      case 5: { // Normalize
        auto& out = buffers[p.out];
        if (!out.known) {
          c.prune();
        }
        choices.note("normalize ", i);
        touched = {p.out};
        for (auto& v : out.content) {
          v /= double(product(p.shape));
        }
        p.normalize();
        break;
      }
      case 6: // Move construction
        choices.note("move ", i);
        p.relocate();
        break;
      case 7: { // Move assignment
        const int j = pickSlot();
        if (i == j || slots[i]->kind != slots[j]->kind || hasDependents(j)) {
          c.prune();
        }
        for (int b : {p.in, p.out}) { // Buffers of the overwritten plan cannot be used by the other one
          if (buffers[b].owner == j) {
            c.prune();
          }
        }
        choices.note("assign ", i, " to ", j);
        auto source = std::move(slots[i]);
        auto& target = *slots[j];
        target.assign(*source);
        forget(j);
        for (auto& b : buffers) {
          if (b.owner == i) {
            b.owner = j;
          }
        }
        target.kind = source->kind;
        target.shape = source->shape;
        target.in = source->in;
        target.out = source->out;
        break;
      }
      default:
        if (hasDependents(i)) {
          c.prune();
        }
        choices.note("destroy ", i);
        destroy(i);
    }
    filled = op == 3 ? p25 : -1;
    verify(before, touched);
  }

  void clear() {
    while (liveCount() > 0) {
      for (int i = slots.size() - 1; i >= 0; --i) {
        if (slots[i] && !hasDependents(i)) {
          const auto before = snapshot();
          destroy(i);
          verify(before, {});
        }
      }
    }
  }
};

template <Index N>
void history25(mc::Ctx& c, Choices25& choices, const Coord& shape, int kind, int length) {
  World25<N> world {c, choices};
  const int users = choices.pick(3);
  if (!choices.replay) {
    c.shard();
  }
  choices.note("shape ", shape, " kind ", kind, " user buffers ", users);
  world.create(kind, shape, users > 0, users > 1);
  world.verify({}, {});
  for (int i = 0; i < length; ++i) {
    world.operate(shape, kind, 3);
  }
  world.clear();
}

template <Index N>
void histories(mc::Ctx& c) {
  const Coord shape = N == 1 ? Coord {c.of({4, 3})} : N == 2 ? c.of(std::vector<Coord> {{3, 2}, {2, 3}}) : Coord {3, 1, 2};
  const int kind = c.pick(4);
  Choices25 choices {c, {}, 0, false};
  auto run = [&]() {
    mc::Live live;
    history25<N>(c, choices, shape, kind, c.tier(N == 1 && shape[0] == 4 ? 4 : N == 2 && shape[0] == 2 ? 4 : 3, N == 2 ? 6 : 5));
    return live.blocks();
  };
  // Results of the planning are cached by FFTW and may be allocated at first run
  choices.record.reserve(64);
  long blocks = run();
  if (blocks != 0) {
    choices.replay = true;
    choices.next = 0;
    blocks = run();
  }
  EXPECT(c, blocks == 0, blocks, "memory blocks are not released");
  c.outcome(choices.record);
}

// Larger shapes: chains of plans which share their buffers
template <typename TPlan, Index N>
void chain25(mc::Ctx& c, const Coord& s, bool user, bool moved) {
  using TIn = typename TPlan::InValue;
  using TOut = typename TPlan::OutValue;
  const bool real = std::is_same<TIn, double>::value;
  const Index n = product(s);
  AlignedRaster<TIn, N> userIn(pos<N>(s));
  AlignedRaster<TOut, N> userOut(pos<N>(real ? half24(s) : s));
  TPlan made = user ? TPlan(pos<N>(s), userIn.data(), userOut.data()) : TPlan(pos<N>(s));
  TPlan plan = moved ? TPlan(pos<N>(Coord(s.size(), 1))) : TPlan(std::move(made));
  if (moved) {
    plan = std::move(made);
  }
  EXPECT(c, !user || (plan.in().data() == userIn.data() && plan.out().data() == userOut.data()), "user buffers are not used");
  auto inverse = plan.inverse();
  EXPECT(c, inverse.in().data() == plan.out().data() && inverse.out().data() == plan.in().data(), "buffers of the inverse are not shared");
  EXPECT_EQ(c, coord<N>(inverse.logicalShape()), s);
  EXPECT_EQ(c, coord<N>(inverse.outShape()), s);
  const auto composedShape = real ? half24(s) : s;
  auto composed = plan.template compose<ComplexDft<N>>(pos<N>(composedShape));
  EXPECT(c, composed.in().data() == plan.out().data(), "input of the composition is not shared");
  EXPECT(c, composed.out().data() != plan.out().data() && (void*)composed.out().data() != (void*)plan.in().data(), "output of the composition is shared");
  Spectrum in(n, 0);
  for (Index i = 0; i < 3; ++i) { // Few impulses
    const Index k = (i * (n / 2 + 1) + i) % n;
    in[k] = real ? Complex(value24(i + 1)) : complex24(i + 1);
  }
  for (Index i = 0; i < n; ++i) {
    plan.in()[i] = cast24<TIn>(in[i]);
  }
  plan.transform();
  const auto full = dft24(s, in, -1);
  const auto expected = real ? half24(s, full) : full;
  near24(c, plan.out(), expected, "direct");
  composed.transform().normalize();
  auto back = std::vector<TOut>(composed.out().begin(), composed.out().end());
  plan.in().fill(TIn(3));
  std::copy(expected.begin(), expected.end(), plan.out().begin());
  inverse.transform();
  auto scaled = in;
  for (auto& e : scaled) {
    e *= double(n);
  }
  near24(c, inverse.out(), scaled, "inverse");
  inverse.normalize();
  near24(c, plan.in(), in, "round trip");
  // The composition is the transform of a transform: impulses at mirrored positions if the axes are whole
  if (!real) {
    Spectrum mirrored(n, 0);
    for (const auto& p : shapePositions(s)) {
      auto q = p;
      for (std::size_t i = 0; i < s.size(); ++i) {
        q[i] = (s[i] - q[i]) % s[i];
      }
      mirrored[offsetOf(s, q)] = in[offsetOf(s, p)];
    }
    near24(c, composed.out(), mirrored, "composition");
  }
  c.step();
  c.outcome(s);
}

template <Index N>
void large(mc::Ctx& c) {
  static const std::vector<Coord> shapes[] = {
      {{16}, {17}, {63}, {64}, {65}, {127}, {128}, {129}, {255}, {256}, {257}, {511}, {512}, {513}, {1000}, {1023}, {1024}, {1025}, {2047}, {2048}, {2049}, {4096}, {4097}, {5000}},
      {{8, 9}, {16, 16}, {17, 16}, {16, 17}, {32, 33}, {33, 32}, {64, 64}, {100, 11}, {3, 700}, {700, 3}, {1, 2000}, {2000, 1}, {65, 64}},
      {{4, 5, 6}, {8, 8, 8}, {10, 11, 12}, {16, 16, 16}, {1, 40, 41}, {41, 1, 40}, {40, 41, 1}, {17, 16, 4}}};
  const auto s = c.of(shapes[N - 1]);
  const bool real = c.flip();
  const int how = c.pick(4);
  c.shard();
  c.note("shape ", s, real ? " real" : " complex", how & 1 ? " user buffers" : "", how & 2 ? " move-assigned" : "");
  if (real) {
    chain25<RealDft<N>, N>(c, s, how & 1, how & 2);
  } else {
    chain25<ComplexDft<N>, N>(c, s, how & 1, how & 2);
  }
}

TINSTANCE(histories, 1);
TINSTANCE(histories, 2);
TINSTANCE(histories, -1);
TINSTANCE(large, 1);
TINSTANCE(large, 2);
TINSTANCE(large, 3);
