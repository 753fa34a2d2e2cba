#include "C29.hpp"
#include <dlfcn.h>

// Injection of faults in the input-output calls of CFITSIO
static int countdown29 = -1; // Calls before the fault
static int calls29 = 0; // Calls made
static bool armed29 = false;

static bool faulty29() {
  if (!armed29) {
    return false;
  }
  ++calls29;
  return countdown29-- == 0;
}

template <typename F>
static F next29(const char* name, F) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

#undef fopen64
extern "C" {
std::size_t fwrite(const void* p, std::size_t size, std::size_t n, FILE* f) {
  static const auto real = next29("fwrite", &fwrite);
  return faulty29() ? 0 : real(p, size, n, f);
}
std::size_t __fread_chk(void* p, std::size_t room, std::size_t size, std::size_t n, FILE* f) {
  static const auto real = next29("__fread_chk", &__fread_chk);
  return faulty29() ? 0 : real(p, room, size, n, f);
}
std::size_t fread(void* p, std::size_t size, std::size_t n, FILE* f) {
  static const auto real = next29("fread", &fread);
  return faulty29() ? 0 : real(p, size, n, f);
}
int fflush(FILE* f) {
  static const auto real = next29("fflush", &fflush);
  const bool fault = faulty29();
  const int out = real(f);
  return fault ? EOF : out;
}
int fclose(FILE* f) {
  static const auto real = next29("fclose", &fclose);
  const bool fault = faulty29();
  const int out = real(f);
  return fault ? EOF : out;
}
int fseeko64(FILE* f, off64_t o, int w) {
  static const auto real = next29("fseeko64", &fseeko64);
  return faulty29() ? -1 : real(f, o, w);
}
FILE* fopen64(const char* p, const char* m) {
  static const auto real = next29("fopen64", &fopen64);
  return faulty29() ? nullptr : real(p, m);
}
}

SCENARIO(faults) {
  const Coord shape = c.of(std::vector<Coord> {{3, 2}, {48, 60}, {90, 96}, {100, 3000}});
  const bool writing = c.flip();
  const int same = c.pick(2);
  const auto image = image29(shape, 2);
  const auto raster = raster29<Raster<char>>(image);
  File29 file("x");
  Fits fits(file.path);
  if (!writing) {
    dump29(file.path, encode29(image));
  }
  // Number of calls without fault
  Image29 got;
  bool failed;
  auto run = [&](int countdown) {
    calls29 = 0;
    countdown29 = countdown;
    armed29 = true;
    failed = writing ? writeFails29(fits, raster) : readFails29<Raster<char>>(fits, got);
    armed29 = false;
  };
  run(-1);
  EXPECT(c, !failed && calls29 > 0, "failure without fault");
  if (writing) {
    ::unlink(file.path.c_str());
  }
  if (!same) {
    fits = Fits(file.path);
  }
  const int k = c.pick(calls29);
  c.note("shape ", shape, writing ? " write" : " read", " fault at call ", k, " of ", calls29);
  got = {};
  run(k);
  c.step();
  if (writing) {
    const bool complete = decode29(slurp29(file.path), got) && got == image;
    EXPECT(c, failed || complete, "the file is wrong and no exception was thrown");
    ::unlink(file.path.c_str());
  } else {
    EXPECT(c, failed || got == image, "made-up raster");
    EXPECT(c, slurp29(file.path) == encode29(image), "the file was modified");
  }
  c.outcome(failed);
  // The object may be used afterwards
  run(-1);
  EXPECT(c, !failed, "the object cannot be used after a fault");
  EXPECT(c, writing ? (decode29(slurp29(file.path), got) && got == image) : got == image, "wrong result after a fault");
}

// Histories over two files and three objects
SCENARIO(histories) {
  const std::vector<Image29> images {image29({2, 3}, 0), image29({4, 2}, 7), image29({2, 1, 2}, 3)};
  File29 files[] = {File29("a"), File29("b")};
  Fits objects[] = {Fits(files[0].path), Fits(files[0].path), Fits(files[1].path)};
  std::string contents[2]; // Empty if missing
  const int length = c.tier(4, 5);
  for (int i = 0; i < length; ++i) {
    const int op = c.pick(16);
    if (op < 12) {
      const int o = op / 4;
      const int f = o == 2;
      auto& fits = objects[o];
      const int k = op % 4;
      if (k < 2) {
        const auto& image = images[k + (o == 0 && k == 1)];
        c.note("write shape ", image.shape, " with object ", o);
        const bool failed = image.shape.size() == 2 ? writeFails29(fits, raster29<Raster<char>>(image)) : writeFails29(fits, raster29<Raster<char, -1>>(image));
        EXPECT(c, failed == !contents[f].empty(), failed ? "cannot write a new file" : "existing file: no exception");
        if (!failed) {
          contents[f] = slurp29(files[f].path);
          Image29 got;
          EXPECT(c, decode29(contents[f], got) && got == image, "the file is wrong");
        }
      } else {
        c.note(k == 2 ? "read 2D" : "read any", " with object ", o);
        Image29 got;
        Image29 expected;
        bool valid = decode29(contents[f], expected);
        if (k == 2) {
          valid = valid && expected.shape.size() == 2;
        }
        const bool failed = k == 2 ? readFails29<Raster<char, 2>>(fits, got) : readFails29<Raster<unsigned char, -1>>(fits, got);
        EXPECT(c, failed == !valid, failed ? "cannot read" : "made-up raster");
        EXPECT(c, failed || got == expected, "got", got.shape, got.pixels);
      }
    } else if (op < 14) { // Remove
      const int f = op - 12;
      if (contents[f].empty()) {
        c.prune();
      }
      c.note("remove ", f);
      ::unlink(files[f].path.c_str());
      contents[f].clear();
    } else if (op == 14) { // Truncate
      if (contents[0].size() <= 2880) {
        c.prune();
      }
      c.note("truncate");
      contents[0].resize(2882);
      dump29(files[0].path, contents[0]);
    } else {
      c.note("copy objects");
      const Fits copy(objects[i % 2]);
      objects[1 - i % 2] = copy;
    }
    if (i == 1) {
      c.shard();
    }
    for (int f = 0; f < 2; ++f) {
      EXPECT(c, exists29(files[f].path) == !contents[f].empty() && slurp29(files[f].path) == contents[f], "file", f, "was modified");
    }
    c.step();
  }
  c.outcome(contents[0].size() + contents[1].size());
}
