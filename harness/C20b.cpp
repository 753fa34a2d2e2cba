#include "C20.hpp"

template <Index... Is>
struct Axes {
  static std::vector<Index> list() {
    return {Is...};
  }
};

inline std::vector<Oriented20> pickKernels20(mc::Ctx& c, const std::vector<Index>& axes, int max, Index away = 0) {
  std::vector<Oriented20> out;
  for (std::size_t i = 0; i < axes.size(); ++i) {
    const Index size = c.range(1, max);
    const Index origin = c.range(-away, size - 1 + away);
    const auto values = kernelValues20<int>(size, 3 * i);
    out.push_back({axes[i], values, origin});
    c.note("along ", axes[i], ": ", values, " origin ", origin);
  }
  return out;
}

template <Index J0>
SeparableKernel<int, J0> combined20(const std::vector<Oriented20>& k, std::size_t i, Axes<J0>) {
  return oriented20<J0>(k[i]);
}

template <Index J0, Index J1, Index... Js>
SeparableKernel<int, J0, J1, Js...> combined20(const std::vector<Oriented20>& k, std::size_t i, Axes<J0, J1, Js...>) {
  return oriented20<J0>(k[i]) * combined20(k, i + 1, Axes<J1, Js...> {});
}

template <Index N, Index... Is>
void separable(mc::Ctx& c, Index dim, Index away = 0) {
  const std::vector<Index> axes {Is...};
  const bool distinct = std::set<Index>(axes.begin(), axes.end()).size() == axes.size();
  const Coord s = pickShape(c, dim, 0, dim == 1 ? c.tier(6, 9) : away > 0 ? c.tier(3, 4) : dim == 2 ? c.tier(4, 5) : c.tier(2, 3));
  c.shard();
  c.note("shape ", s);
  const auto kernels = pickKernels20(c, axes, axes.size() > 2 || away > 0 ? c.tier(2, 3) : c.tier(3, 4), away);
  const auto kernel = combined20(kernels, 0, Axes<Is...> {});
  Raster<int, N> in(pos<N>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values20<int>::image(i);
  }
  const std::vector<int> values(in.begin(), in.end());
  const auto expected = successive20(values, s, kernels);
  const auto out = kernel * in;
  EXPECT_EQ(c, coord<N>(out.shape()), s);
  EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), expected);
  EXPECT_EQ(c, std::vector<int>(in.begin(), in.end()), values);
  // To other types
  Raster<double, N> out2(pos<N>(s));
  out2.fill(-1);
  kernel.correlateTo(in, out2);
  EXPECT_EQ(c, coord<N>(out2.shape()), s);
  EXPECT_EQ(c, std::vector<double>(out2.begin(), out2.end()), std::vector<double>(expected.begin(), expected.end()));
  Raster<double, N> in3(pos<N>(s));
  for (std::size_t i = 0; i < in3.size(); ++i) {
    in3[i] = in[i] * .25;
  }
  out2.fill(-1);
  kernel.correlateTo(in3, out2);
  for (std::size_t i = 0; i < in3.size(); ++i) {
    EXPECT(c, out2[i] == expected[i] * .25, "from double to double: pixel", i, "is", out2[i], "instead of", expected[i] * .25);
  }
  // From views
  PtrRaster<const int, N> view(pos<N>(s), in.data());
  const auto out3 = kernel * view;
  EXPECT_EQ(c, std::vector<int>(out3.begin(), out3.end()), expected);
  auto copy(kernel);
  const auto out4 = copy * in;
  EXPECT_EQ(c, std::vector<int>(out4.begin(), out4.end()), expected);
  // Composition
  const auto w = kernel.window();
  Coord front, back;
  for (Index i = 0; i < SeparableKernel<int, Is...>::Dimension; ++i) {
    front.push_back(0);
    back.push_back(0);
    for (const auto& k : kernels) {
      if (k.axis == i) {
        front.back() -= k.origin;
        back.back() += Index(k.values.size()) - 1 - k.origin;
      }
    }
    EXPECT(c, w.front()[i] == front[i] && w.back()[i] == back[i], "window");
  }
  for (const auto& k : kernels) {
    if (distinct) {
      EXPECT(c, kernel[k.axis].origin() == k.origin);
      EXPECT_EQ(c, std::vector<int>(kernel[k.axis].begin(), kernel[k.axis].end()), k.values);
    }
  }
  for (Index axis = -1; axis < 6; ++axis) { // No kernel along the other axes
    bool known = false;
    for (const auto& k : kernels) {
      known = known || k.axis == axis;
    }
    bool thrown = false;
    try {
      kernel[axis];
    } catch (const std::exception&) {
      thrown = true;
    }
    EXPECT(c, thrown != known, "kernel along axis", axis);
  }
  EXPECT(c, std::distance(kernel.begin(), kernel.end()) == long(kernels.size()));
  auto composed = kernel.compose();
  constexpr Index D = SeparableKernel<int, Is...>::Dimension;
  EXPECT_EQ(c, coord<D>(composed.window().front()), front);
  EXPECT_EQ(c, coord<D>(composed.window().back()), back);
  const auto domain = boxPositions(front, back);
  std::size_t n = 0;
  for (const auto& p : domain) {
    // Sum over all the combinations of the kernels
    std::function<int(std::size_t, Coord)> sum = [&](std::size_t i, Coord q) {
      if (i == kernels.size()) {
        return int(std::all_of(q.begin(), q.end(), [](Index x) {
          return x == 0;
        }));
      }
      int res = 0;
      for (std::size_t j = 0; j < kernels[i].values.size(); ++j) {
        auto r = q;
        r[kernels[i].axis] -= Index(j) - kernels[i].origin;
        res += kernels[i].values[j] * sum(i + 1, r);
      }
      return res;
    };
    EXPECT_EQ(c, composed.raster()[n], sum(0, p));
    ++n;
  }
  EXPECT(c, n == composed.raster().size());
  c.step(6);
  c.outcome(expected);
}

// Composition is equivalent with null extrapolation
template <Index N, Index... Is>
void composedAway(mc::Ctx& c, Index away) {
  const std::vector<Index> axes {Is...};
  const Coord s = pickShape(c, N, 1, N < 3 ? c.tier(4, 5) : c.tier(2, 3));
  c.shard();
  c.note("shape ", s);
  const auto kernels = pickKernels20(c, axes, axes.size() > 2 || away > 0 ? 2 : 3, away);
  const auto kernel = combined20(kernels, 0, Axes<Is...> {});
  Raster<int, N> in(pos<N>(s));
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values20<int>::image(i + 2);
  }
  auto single = kernel.compose();
  const auto out = single * extrapolate(in, 0);
  EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), successive20(std::vector<int>(in.begin(), in.end()), s, kernels));
  c.step();
  c.outcome(std::vector<int>(out.begin(), out.end()));
}

template <Index N, Index... Is>
void composed(mc::Ctx& c) {
  composedAway<N, Is...>(c, 0);
}

// Smoothing-derivative presets
template <Index D, Index... Is>
void presets(mc::Ctx& c) {
  std::vector<Index> axes {D, Is...};
  constexpr Index N = SeparableKernel<int, D, Is...>::Dimension;
  const Coord s = pickShape(c, N, 1, N < 3 ? c.tier(4, 6) : c.tier(3, 4));
  c.shard();
  const int sign = c.flip() ? -1 : 1;
  const int preset = c.pick(5);
  const bool byDefault = sign == 1 && c.flip();
  c.note("shape ", s, " sign ", sign, " preset ", preset);
  using K = SeparableKernel<int, D, Is...>;
  std::vector<Oriented20> kernels;
  const std::vector<std::vector<int>> smoothing {{1, 1, 1}, {1, 2, 1}, {3, 10, 3}};
  for (std::size_t i = 0; i < axes.size(); ++i) {
    if (preset < 3) {
      kernels.push_back({axes[i], i == 0 ? std::vector<int> {sign, 0, -sign} : smoothing[preset], 1});
    } else if (preset == 3) {
      kernels.push_back({axes[i], {sign, -2 * sign, sign}, 1});
    } else {
      kernels.push_back({axes[i], {5, sign, 3, 2}, 2});
    }
  }
  const K k = preset == 0 ? (byDefault ? K::prewitt() : K::prewitt(sign)) :
      preset == 1         ? (byDefault ? K::sobel() : K::sobel(sign)) :
      preset == 2         ? (byDefault ? K::scharr() : K::scharr(sign)) :
      preset == 3         ? (byDefault ? K::laplacian() : K::laplacian(sign)) :
                            LineKernel<int>({5, sign, 3, 2}).template along<D, Is...>();
  for (Index impulse = -1; impulse < product(s); ++impulse) {
    Raster<int, N> in(pos<N>(s));
    for (std::size_t i = 0; i < in.size(); ++i) {
      in[i] = impulse < 0 ? Values20<int>::image(i) : Index(i) == impulse;
    }
    const auto out = k * in;
    const auto expected = successive20(std::vector<int>(in.begin(), in.end()), s, kernels);
    EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), expected);
    c.step();
    c.outcome(expected);
  }
}

// Map-based construction, where the map may have other axes
template <Index... Is>
void maps(mc::Ctx& c) {
  const auto kernels = pickKernels20(c, {Is...}, c.tier(sizeof...(Is) < 3 ? 3 : 2, sizeof...(Is) < 3 ? 4 : 3));
  std::map<Index, LineKernel<int>> map;
  for (const auto& k : kernels) {
    map.emplace(k.axis, LineKernel<int>(k.values, k.origin));
  }
  const bool others = c.flip();
  for (Index i = -1; others && i < 5; ++i) {
    map.emplace(i, LineKernel<int>({100, 200}, 1)); // Axes which are already there are kept
  }
  const SeparableKernel<int, Is...> kernel(map);
  EXPECT(c, std::distance(kernel.begin(), kernel.end()) == long(kernels.size()), "number of kernels");
  for (Index axis = -1; axis < 6; ++axis) { // No kernel along the other axes
    bool known = false;
    for (const auto& k : kernels) {
      known = known || k.axis == axis;
    }
    bool thrown = false;
    try {
      kernel[axis];
    } catch (const std::exception&) {
      thrown = true;
    }
    EXPECT(c, thrown != known, "kernel along axis", axis);
  }
  for (const auto& k : kernels) {
    EXPECT(c, kernel[k.axis].origin() == k.origin);
    EXPECT_EQ(c, std::vector<int>(kernel[k.axis].begin(), kernel[k.axis].end()), k.values);
  }
  Raster<int, 3> in({4, 3, 2});
  for (std::size_t i = 0; i < in.size(); ++i) {
    in[i] = Values20<int>::image(i);
  }
  const auto out = kernel * in;
  EXPECT_EQ(c, std::vector<int>(out.begin(), out.end()), successive20(std::vector<int>(in.begin(), in.end()), {4, 3, 2}, kernels));
  c.step();
  c.outcome(std::vector<int>(out.begin(), out.end()));
}

#define SEPARABLE(name, N, dim, ...) \
  SCENARIO(separable_##name) { \
    separable<N, __VA_ARGS__>(c, dim); \
  }
SEPARABLE(x, 1, 1, 0)
SEPARABLE(xx, 1, 1, 0, 0)
SEPARABLE(x2, 2, 2, 0)
SEPARABLE(y2, 2, 2, 1)
SEPARABLE(xy2, 2, 2, 0, 1)
SEPARABLE(yx2, 2, 2, 1, 0)
SEPARABLE(xyx2, 2, 2, 0, 1, 0)
SEPARABLE(xy3, 3, 3, 0, 1)
SEPARABLE(xz3, 3, 3, 0, 2)
SEPARABLE(zy3, 3, 3, 2, 1)
SEPARABLE(yzx3, 3, 3, 1, 2, 0)
SEPARABLE(xyz3, 3, 3, 0, 1, 2)
SEPARABLE(yxv, -1, 2, 1, 0)
SEPARABLE(xzv, -1, 3, 0, 2)
TINSTANCE(composed, 2, 0, 1);
TINSTANCE(composed, 2, 1, 0);
TINSTANCE(composed, 3, 2, 0, 1);
TINSTANCE(presets, 0, 1);
TINSTANCE(presets, 1, 0);
TINSTANCE(presets, 0, 1, 2);
TINSTANCE(presets, 2, 0);
TINSTANCE(presets, 1, 2, 0);
// Origins outside of the kernels
SCENARIO(outside_x) {
  separable<1, 0>(c, 1, c.tier(4, 8));
}
SCENARIO(outside_xy) {
  separable<2, 0, 1>(c, 2, c.tier(2, 3));
}
SCENARIO(outside_yx) {
  separable<2, 1, 0>(c, 2, c.tier(1, 3));
}
SCENARIO(outside_composed) {
  composedAway<2, 0, 1>(c, c.tier(2, 4));
}
TINSTANCE(maps, 0);
TINSTANCE(maps, 2);
TINSTANCE(maps, 0, 1);
TINSTANCE(maps, 1, 0);
TINSTANCE(maps, 2, 0);
TINSTANCE(maps, 1, 2, 0);
TINSTANCE(maps, 2, 1, 0);
