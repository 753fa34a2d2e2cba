// C09: aligned buffers
#include "LitlContainer/AlignedBuffer.h"
#include "mc.hpp"

#include <cstdlib>
using namespace Litl;

// What a buffer must look like
struct Model {
  std::size_t size = 0;
  std::size_t as = 1;
  bool owns = false;
  int block = -1; // Memory it designates, or -1
  bool any = false; // Copy of a buffer without data: may own an empty block or nothing
};

// Memory blocks of the model
struct Block {
  std::vector<int> values;
  bool alive = true;
  bool external = false;
};

template <typename T>
struct World {
  mc::Ctx& c;
  std::unique_ptr<AlignedBuffer<T>> buf[2];
  Model m[2];
  std::vector<Block> blocks;
  std::vector<std::pair<void*, int>> released; // Container pointers to be freed by the caller
  T* ext; // External memory, aligned to 256
  int extBlock = 0;
  int tag = 0;

  World(mc::Ctx& ctx, T* e) : c(ctx), ext(e) {
    blocks.push_back(Block());
    blocks[0].external = true;
    blocks[0].values.assign(8, 0);
    for (int i = 0; i < 8; ++i) {
      ext[i] = T(i + 1);
      blocks[0].values[i] = i + 1;
    }
  }

  // The owner of a block which disappears frees it
  void drop(int w) {
    if (m[w].owns && m[w].block >= 0) {
      blocks[m[w].block].alive = false;
    }
  }

  T* at(int w) {
    return const_cast<T*>(buf[w]->data());
  }

  // Write recognizable values everywhere in a new owned buffer
  void fill(int w) {
    for (std::size_t i = 0; i < m[w].size; ++i) {
      at(w)[i] = T(++tag % 100);
      blocks[m[w].block].values[i] = tag % 100;
    }
  }

  int newBlock(std::size_t n) {
    blocks.push_back(Block());
    blocks.back().values.assign(n, 0);
    return int(blocks.size()) - 1;
  }

  void constructOwning(int w, std::size_t n, std::size_t align) {
    drop(w);
    buf[w].reset();
    buf[w].reset(new AlignedBuffer<T>(n, nullptr, align));
    m[w] = Model {n, align == 0 || align == std::size_t(-1) ? 64 : align, true, newBlock(n), false};
    fill(w);
  }

  void constructSharing(int w, std::size_t n, std::size_t align) {
    drop(w);
    buf[w].reset();
    buf[w].reset(new AlignedBuffer<T>(n, ext, align));
    m[w] = Model {n, align == 0 ? 1 : align == std::size_t(-1) ? 64 : align, false, extBlock, false};
  }

  // Model of the copy of o
  Model copied(int o) {
    Model r = m[o];
    if (m[o].owns) {
      r.block = newBlock(m[o].size);
      for (std::size_t i = 0; i < m[o].size; ++i) {
        blocks[r.block].values[i] = blocks[m[o].block].values[i];
      }
    } else if (m[o].block < 0) {
      r.any = true;
    }
    return r;
  }

  void verify(int w) {
    c.step();
    const auto& b = *buf[w];
    const Model& x = m[w];
    EXPECT(c, b.size() == x.size, "size of buffer", w, "is", b.size(), "instead of", x.size);
    if (x.any) {
      return;
    }
    EXPECT(c, b.owns() == x.owns, "ownership of buffer", w);
    if (x.block < 0) {
      EXPECT(c, b.data() == nullptr, "data of the empty buffer", w);
      return;
    }
    EXPECT(c, b.alignmentReq() == x.as, "alignment requirement of buffer", w, "is", b.alignmentReq(), "instead of", x.as);
    EXPECT(c, b.data() != nullptr, "data of buffer", w);
    EXPECT(c, std::uintptr_t(b.data()) % x.as == 0, "alignment of buffer", w, "to", x.as);
    EXPECT(c, isAligned(b.data(), x.as));
    std::size_t al = 1;
    while (std::uintptr_t(b.data()) % (al * 2) == 0) {
      al *= 2;
    }
    EXPECT(c, b.alignment() == al, "alignment()");
    if (blocks[x.block].external) {
      EXPECT(c, b.data() == ext, "shared pointer of buffer", w);
    }
    if (blocks[x.block].alive) {
      for (std::size_t i = 0; i < x.size; ++i) {
        EXPECT(c, b.data()[i] == T(blocks[x.block].values[i]), "element", i, "of buffer", w, "is", double(b.data()[i]), "instead of", blocks[x.block].values[i]);
      }
    }
  }

  void verifyAll() {
    for (int w : {0, 1}) {
      if (buf[w]) {
        verify(w);
      }
    }
    if (buf[0] && buf[1] && m[0].block >= 0 && m[1].block >= 0) {
      EXPECT(c, (buf[0]->data() == buf[1]->data()) == (m[0].block == m[1].block) || !blocks[m[0].block].alive || !blocks[m[1].block].alive,
        "buffers must share memory if and only if not owning copies");
    }
  }

  // One operation; returns false if it does not apply
  bool apply(int op) {
    const int w = op % 2;
    const int o = 1 - w;
    static const std::size_t sizes[] = {0, 1, 3};
    switch (op / 2) {
      case 0: {
        const std::size_t n = sizes[c.pick(3)];
        const std::size_t al = c.of<std::size_t>({0, std::size_t(-1), 1, 16, 128});
        c.note("b", w, " = owning, size ", n, " align ", long(al));
        constructOwning(w, n, al);
        return true;
      }
      case 1: {
        const std::size_t al = c.of<std::size_t>({0, 32});
        c.note("b", w, " = sharing, align ", al);
        constructSharing(w, 3, al);
        return true;
      }
      case 2: // Copy construction
        if (!buf[o]) {
          return false;
        }
        c.note("b", w, " = copy of b", o);
        drop(w);
        buf[w].reset();
        if (!m[o].owns && m[o].block >= 0 && !blocks[m[o].block].alive) {
          return false; // Dangling by the user's fault
        }
        buf[w].reset(new AlignedBuffer<T>(*buf[o]));
        m[w] = copied(o);
        return true;
      case 3: // Move construction
        if (!buf[o]) {
          return false;
        }
        c.note("b", w, " = moved from b", o);
        drop(w);
        buf[w].reset();
        buf[w].reset(new AlignedBuffer<T>(std::move(*buf[o])));
        m[w] = m[o];
        m[o] = Model();
        return true;
      case 4: { // Copy assignment
        if (!buf[w] || !buf[o]) {
          return false;
        }
        c.note("b", w, " <- b", o);
        if (!m[o].owns && m[o].block >= 0 && m[o].block == m[w].block && m[w].owns) {
          return false; // Would leave both with freed memory, by the user's fault
        }
        const Model r = copied(o);
        drop(w);
        auto& ret = (*buf[w] = *buf[o]);
        EXPECT(c, &ret == buf[w].get());
        m[w] = r;
        return true;
      }
      case 5: { // Move assignment
        if (!buf[w] || !buf[o]) {
          return false;
        }
        c.note("b", w, " <- moved b", o);
        if (!m[o].owns && m[o].block >= 0 && m[o].block == m[w].block && m[w].owns) {
          return false;
        }
        drop(w);
        auto& ret = (*buf[w] = std::move(*buf[o]));
        EXPECT(c, &ret == buf[w].get());
        m[w] = m[o];
        m[o] = Model();
        return true;
      }
      case 6: { // Self-assignment
        if (!buf[w]) {
          return false;
        }
        auto& b = *buf[w];
        if (c.flip()) {
          c.note("b", w, " <- itself");
          b = *(&b);
        } else {
          c.note("b", w, " <- moved itself");
          b = std::move(*(&b));
        }
        return true;
      }
      case 7: { // Release
        if (!buf[w] || m[w].any) {
          return false;
        }
        c.note("b", w, ".release()");
        void* p = buf[w]->release();
        EXPECT(c, (p != nullptr) == m[w].owns, "pointer returned by release");
        if (m[w].owns) {
          EXPECT(c, mc::isLiveBlock(p), "released pointer must be the one to be freed");
          released.emplace_back(p, m[w].block);
          m[w].owns = false;
        }
        return true;
      }
      case 8: { // Reset
        if (!buf[w]) {
          return false;
        }
        c.note("b", w, ".reset()");
        buf[w]->reset();
        drop(w);
        m[w] = Model();
        return true;
      }
      case 9: { // Write an element
        if (!buf[w] || m[w].size == 0 || m[w].block < 0 || !blocks[m[w].block].alive) {
          return false;
        }
        c.note("write in b", w);
        const std::size_t i = m[w].size - 1;
        at(w)[i] = T(++tag % 100);
        blocks[m[w].block].values[i] = tag % 100;
        return true;
      }
      case 10: { // Share the other's data
        if (!buf[o] || m[o].block < 0 || !blocks[m[o].block].alive || m[o].any) {
          return false;
        }
        c.note("b", w, " = sharing the data of b", o);
        T* p = at(o);
        if (m[w].owns && m[w].block == m[o].block) {
          return false;
        }
        drop(w);
        buf[w].reset();
        buf[w].reset(new AlignedBuffer<T>(m[o].size, p, 1));
        m[w] = Model {m[o].size, 1, false, m[o].block, false};
        return true;
      }
    }
    return false;
  }
};

template <typename T>
void histories(mc::Ctx& c) {
  static T* ext = nullptr;
  if (!ext) {
    void* p = nullptr;
    if (posix_memalign(&p, 256, 256)) {
      c.fail("posix_memalign");
    }
    ext = static_cast<T*>(p);
  }
  std::uint64_t state = 0;
  mc::Live live;
  {
    World<T> world(c, ext);
    const int depth = int(c.tier(4, 5));
    for (int k = 0; k < depth; ++k) {
      const int op = k == 0 ? 2 * c.pick(2) : c.pick(22); // The first operation creates b0
      if (!world.apply(op)) {
        c.prune();
      }
      if (k == 1) {
        c.shard();
      }
      world.verifyAll();
      for (int w : {0, 1}) {
        state = mc::mix(state, world.m[w].size * 1000 + world.m[w].as * 4 + world.m[w].owns * 2 + (world.m[w].block >= 0));
      }
    }
    world.buf[0].reset();
    world.buf[1].reset();
    for (int i = 0; i < 8; ++i) {
      EXPECT(c, ext[i] == T(world.blocks[0].values[i]), "external memory at", i);
    }
    for (auto& r : world.released) {
      EXPECT(c, mc::isLiveBlock(r.first), "released block was freed by the buffer");
      std::free(r.first);
    }
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
  c.state(state);
  c.outcome(long(state >> 32));
}

// Alignment of owned memory, for all sizes and requirements
template <typename T>
void owning(mc::Ctx& c) {
  const std::size_t n = c.range(0, c.tier(9, 40));
  const long al = c.of<long>({0, -1, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024});
  c.shard();
  c.note("size=", n, " align=", al);
  const std::size_t as = al <= 0 ? 64 : al;
  mc::Live live;
  {
    // Several buffers, so that several underlying addresses are met
    AlignedBuffer<T> buffers[3] = {{n, nullptr, std::size_t(al)}, {n, nullptr, std::size_t(al)}, {n, nullptr, std::size_t(al)}};
    for (auto& b : buffers) {
      EXPECT_EQ(c, b.size(), n);
      EXPECT_EQ(c, b.alignmentReq(), as);
      EXPECT(c, b.owns());
      EXPECT(c, std::uintptr_t(b.data()) % as == 0);
      T* p = const_cast<T*>(b.data());
      for (std::size_t i = 0; i < n; ++i) {
        p[i] = T(i); // Out-of-block writes are trapped
      }
      for (std::size_t i = 0; i < n; ++i) {
        EXPECT(c, p[i] == T(i));
      }
      c.step();
    }
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
  c.outcome(as);
}

// More elements than 8 or 16 bits can count
template <typename T>
void wide(mc::Ctx& c) {
  const std::size_t n = c.of<std::size_t>({255, 256, 257, 300, 4096, 65535, 65536, 65537, 70001, 100000});
  const std::size_t al = c.of<std::size_t>({0, 1, 64, 4096});
  const std::size_t other = c.of<std::size_t>({0, 3, 300, 70001});
  c.shard();
  c.note("size=", n, " align=", long(al), " other size=", other);
  mc::Live live;
  {
    AlignedBuffer<T> a(n, nullptr, al);
    std::vector<T> values(n);
    T* p = const_cast<T*>(a.data());
    for (std::size_t i = 0; i < n; ++i) {
      p[i] = values[i] = T((i * 7 + i / 251) % 113);
    }
    auto same = [&](const AlignedBuffer<T>& b, const char* what) {
      EXPECT(c, b.size() == n, what, ": size is", b.size());
      EXPECT(c, b.owns(), what, "does not own its memory");
      EXPECT(c, std::uintptr_t(b.data()) % (al ? al : 64) == 0, what, "is not aligned");
      const auto diff = std::mismatch(values.begin(), values.end(), b.data());
      EXPECT(c, diff.first == values.end(), what, ": element", diff.first - values.begin(), "is wrong");
      c.step();
    };
    same(a, "owning buffer");
    AlignedBuffer<T> b(a);
    same(b, "copy");
    EXPECT(c, b.data() != a.data(), "a copy shares memory");
    AlignedBuffer<T> d(other, nullptr, 16);
    d = a;
    same(d, "assigned");
    same(a, "source");
    AlignedBuffer<T> e(other, nullptr, 32);
    e = std::move(d);
    same(e, "move-assigned");
    AlignedBuffer<T> f(std::move(e));
    same(f, "moved");
    AlignedBuffer<T> g(n, const_cast<T*>(f.data()), 1);
    AlignedBuffer<T> h(g);
    EXPECT(c, h.data() == f.data() && h.size() == n && not h.owns(), "copy of a sharing buffer");
    f.reset();
    same(a, "untouched");
    same(b, "untouched");
  }
  const long left = live.blocks();
  EXPECT(c, left == 0, "blocks not freed:", left);
  c.outcome(n);
}

// Sharing: exactly the pointers aligned as required are accepted
SCENARIO(sharing) {
  alignas(2048) static char memory[4096];
  const std::size_t offset = c.range(0, c.tier(130, 1030));
  const long al = c.of<long>({0, -1, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024});
  c.shard();
  c.note("offset=", offset, " align=", al);
  const std::size_t as = al == 0 ? 1 : al == -1 ? 64 : al;
  char* p = memory + offset;
  const bool ok = offset % as == 0;
  bool thrown = false;
  try {
    AlignedBuffer<char> b(5, p, std::size_t(al));
    EXPECT(c, b.data() == p);
    EXPECT_EQ(c, b.alignmentReq(), as);
    EXPECT(c, !b.owns());
    EXPECT_EQ(c, b.size(), std::size_t(5));
    AlignedBuffer<const char> k(5, p, std::size_t(al));
    EXPECT(c, k.data() == p);
    EXPECT(c, b.release() == nullptr);
    EXPECT(c, b.data() == p);
  } catch (const AlignmentError&) {
    thrown = true;
  }
  EXPECT(c, thrown == !ok, "alignment exception");
  EXPECT(c, isAligned(p, as) == ok);
  std::size_t best = 1;
  while (std::uintptr_t(p) % (best * 2) == 0) {
    best *= 2;
  }
  EXPECT_EQ(c, alignment(p), best);
  c.throws<NullPtrError>([&] {
    (void)isAligned(static_cast<char*>(nullptr), as);
  }, "null pointer");
  c.step(3);
  c.outcome(ok);
}

// Sizes in bytes which cannot be represented
template <typename T>
void overflows(mc::Ctx& c) {
  const std::size_t align = c.of<std::size_t>({0, std::size_t(-1), 1, 2, 64, 4096});
  const std::size_t as = align == 0 || align == std::size_t(-1) ? 64 : align;
  const int k = c.pick(32);
  c.shard();
  const std::size_t last = (~std::size_t(0) - (as - 1)) / sizeof(T); // Last size such that the size in bytes can be represented
  const std::size_t sizes[] = {last + 1, last + 2, ~std::size_t(0), ~std::size_t(0) - 1, ~std::size_t(0) - 16};
  const std::size_t size = k < 5 ? sizes[k] : ~std::size_t(0) / sizeof(T) + std::size_t(k - 4); // The size in bytes would wrap to k - 5 or so
  if (size <= last) {
    c.prune();
  }
  c.note("size ", size, " align ", align);
  mc::Live live;
  bool thrown = false;
  try {
    AlignedBuffer<T> b(size, nullptr, align);
    EXPECT(c, b.size() != size, "a buffer of", size, "elements of", sizeof(T), "bytes was allocated");
  } catch (const std::exception&) {
    thrown = true;
  }
  EXPECT(c, thrown, "no exception was thrown");
  EXPECT(c, live.blocks() == 0, "memory is leaked");
  c.step();
  c.outcome(size);
}
TINSTANCE(overflows, char);
TINSTANCE(overflows, short);
TINSTANCE(overflows, double);
TINSTANCE(overflows, long double);

TINSTANCE(histories, char);
TINSTANCE(histories, double);
TINSTANCE(wide, char);
TINSTANCE(wide, double);
TINSTANCE(wide, int);
TINSTANCE(owning, char);
TINSTANCE(owning, short);
TINSTANCE(owning, float);
TINSTANCE(owning, std::complex<double>);
TINSTANCE(owning, long double);
