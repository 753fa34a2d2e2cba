// C09: aligned buffers, for any address chosen by the allocator.
// malloc() is intercepted at link time: where the block starts with respect to alignment boundaries is an explored choice.
#include "LitlContainer/AlignedBuffer.h"
#include "mc.hpp"

#include <array>
#include <complex>
#include <cstdlib>
#include <map>
#include <sanitizer/asan_interface.h>
using namespace Litl;

extern "C" {
void* __real_malloc(std::size_t);
void __real_free(void*);
}

namespace {
const std::size_t PAGE = 4096;
std::vector<std::size_t> g_residues; // Addresses of the next blocks modulo PAGE
bool g_armed = false;
struct Placed {
  char* base;
  std::size_t size;
};
std::map<void*, Placed> g_placed;
} // namespace

extern "C" {
void* __wrap_malloc(std::size_t n) {
  if (!g_armed || g_residues.empty()) {
    return __real_malloc(n);
  }
  const std::size_t r = g_residues.back();
  g_residues.pop_back();
  void* base = nullptr;
  if (posix_memalign(&base, PAGE, r + n)) {
    return nullptr;
  }
  char* p = static_cast<char*>(base) + r;
  if (r > 0) {
    __asan_poison_memory_region(base, r);
  }
  g_placed[p] = {static_cast<char*>(base), r + n};
  return p;
}
void __wrap_free(void* p) {
  const auto it = g_placed.find(p);
  if (it == g_placed.end()) {
    __real_free(p);
    return;
  }
  char* base = it->second.base;
  __asan_unpoison_memory_region(base, it->second.size);
  g_placed.erase(it);
  __real_free(base);
}
}

template <typename T>
void write(T& x, int v) {
  x = T(v);
}
template <typename T, std::size_t N>
void write(std::array<T, N>& x, int v) {
  x.fill(T(v));
}

// Construction, then copy, assignment or move, with every address of the two blocks
template <typename T>
void placement(mc::Ctx& c) {
  const int form = c.pick(7);
  const std::size_t n = c.range(0, c.tier(3, 6));
  const std::vector<std::size_t> aligns = {1, 4, 16, 32, 64, 256};
  const std::size_t as = c.of(aligns);
  const std::size_t step = 16; // Minimum alignment of malloc()
  const std::size_t count = c.tier(8, 32); // Residues up to twice the default alignment, or four times
  const std::size_t r0 = step * c.range(0, count - 1);
  const std::size_t r1 = form == 0 ? 0 : step * c.range(0, count - 1);
  const std::size_t as1 = form == 3 || form == 4 ? c.of(aligns) : as; // Requirement of the assigned buffer
  const std::size_t n1 = form == 4 ? n + 1 : n;
  c.shard();
  c.note("form ", form, " size ", n, " alignment ", as, " blocks at ", r0, " and ", r1, " from a page; assigned buffer alignment ", as1);
  std::vector<T> expected(n);
  for (std::size_t i = 0; i < n; ++i) {
    write(expected[i], int(i) + 1);
  }
  const auto verify = [&](const AlignedBuffer<T>& b, const char* what) {
    EXPECT(c, b.size() == n && b.owns() && b.alignmentReq() == as, what, "properties");
    EXPECT(c, std::uintptr_t(b.data()) % as == 0, what, "is not aligned: residue", std::uintptr_t(b.data()) % as);
    for (std::size_t i = 0; i < n; ++i) {
      EXPECT(c, b.data()[i] == expected[i], what, "element", i);
    }
    c.step(n + 2);
  };
  const auto fill = [&](const AlignedBuffer<T>& b, std::size_t size, int from) {
    for (std::size_t i = 0; i < size; ++i) {
      write(const_cast<T*>(b.data())[i], int(i) + from); // Out-of-block accesses are trapped
    }
  };
  g_placed.clear();
  {
    g_armed = true;
    g_residues = {r0};
    AlignedBuffer<T> a(n, nullptr, as);
    g_armed = false;
    fill(a, n, 1);
    verify(a, "new buffer");
    if (form == 1) { // Copy
      g_armed = true;
      g_residues = {r1};
      const AlignedBuffer<T> b(a);
      g_armed = false;
      verify(b, "copy");
      fill(b, n, 50);
      verify(a, "copied");
    } else if (form >= 2 && form <= 4) { // Copy-assignment: of a non-owning buffer, of the same or different size
      T memory[1];
      g_armed = form != 2;
      g_residues = {r1};
      AlignedBuffer<T> b(form == 2 ? 1 : n1, form == 2 ? memory : nullptr, form == 2 ? 1 : as1);
      if (form != 2) {
        fill(b, n1, 70);
      }
      g_armed = true;
      g_residues = {r1};
      b = a;
      g_armed = false;
      verify(b, "assigned");
      fill(b, n, 50);
      verify(a, "source");
    } else if (form == 5) { // Moves
      AlignedBuffer<T> b(std::move(a));
      verify(b, "moved");
      g_armed = true;
      g_residues = {r1};
      AlignedBuffer<T> d(n + 1, nullptr, 64);
      g_armed = false;
      fill(d, n + 1, 50);
      d = std::move(b);
      verify(d, "move-assigned");
    } else if (form == 6) { // Release
      const T* data = a.data();
      void* block = a.release();
      EXPECT(c, !a.owns() && a.data() == data);
      g_armed = true;
      g_residues = {r1};
      AlignedBuffer<T> b(n, nullptr, as);
      g_armed = false;
      fill(b, n, 50);
      for (std::size_t i = 0; i < n; ++i) {
        EXPECT(c, data[i] == expected[i], "released element", i);
      }
      std::free(block);
    }
  }
  EXPECT(c, g_placed.empty(), "blocks not freed:", g_placed.size());
  c.outcome(as * 7 + form);
}

using Char3 = std::array<char, 3>;
using Double3 = std::array<double, 3>;
using Double6 = std::array<double, 6>;
using Quad = std::complex<long double>;
TINSTANCE(placement, char);
TINSTANCE(placement, float);
TINSTANCE(placement, std::complex<double>);
TINSTANCE(placement, Quad);
TINSTANCE(placement, Char3);
TINSTANCE(placement, Double3);
TINSTANCE(placement, Double6);
