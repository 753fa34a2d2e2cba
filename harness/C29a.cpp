#include "C29.hpp"

template <Index N>
std::vector<Coord> shapes29(mc::Ctx& c, int dim) {
  std::vector<Coord> out;
  const Index max = dim >= 4 ? 2 : dim == 3 ? c.tier(3, 4) : c.tier(4, 6);
  const Coord zeros(dim, dim >= 4 ? 1 : 0);
  for (auto s : boxPositions(zeros, Coord(dim, max))) {
    out.push_back(s);
  }
  if (dim == 1) { // Around the blocks
    for (Index l : {2879, 2880, 2881, 5759, 5760, 5761, 28801, 65535, 65536, 65537, 70001}) {
      out.push_back({l});
    }
  }
  if (dim == 2) {
    out.push_back({48, 60});
    out.push_back({60, 49});
    out.push_back({1, 2881});
    out.push_back({300, 2});
    out.push_back({3, 300});
    out.push_back({70001, 2});
    out.push_back({2, 70001});
  }
  if (dim == 3) {
    out.push_back({10, 20, 30});
    out.push_back({40, 50, 41});
    out.push_back({1, 2, 70001});
  }
  return out;
}

template <typename T, Index N, typename TContainer>
void roundtrip(mc::Ctx& c) {
  using R = Raster<T, N, TContainer>;
  const int dim = N < 0 ? c.range(1, c.tier(6, 11)) : N;
  const auto shape = c.of(shapes29<N>(c, dim));
  c.shard();
  const auto image = image29(shape, c.pick(3));
  const int form = c.pick(4);
  c.note("shape ", shape, " form ", form);
  File29 file("a");
  const auto in = raster29<R>(image);
  {
    Fits writer(file.path);
    writer.write(in);
    EXPECT(c, image29(in) == image, "the input has changed");
    Image29 got;
    EXPECT(c, decode29(slurp29(file.path), got), "the file is incomplete");
    EXPECT(c, got == image, "the file contains", got.shape, got.pixels);
    c.step();
    Fits reader(file.path);
    auto& fits = form & 1 ? reader : writer;
    if (form & 2) {
      EXPECT(c, image29(fits.read<Raster<T, -1>>()) == image, "wrong variable dimension raster");
    } else {
      EXPECT(c, image29(fits.read<R>()) == image, "wrong raster");
    }
    c.step();
    EXPECT(c, image29(fits.read<R>()) == image, "wrong raster the second time");
    EXPECT(c, image29(in) == image, "the input has changed");
  }
  c.outcome(product(shape));
}

TINSTANCE(roundtrip, char, 1, StdHolder<std::vector<char>>);
TINSTANCE(roundtrip, char, 2, StdHolder<std::vector<char>>);
TINSTANCE(roundtrip, unsigned char, 3, AlignedBuffer<unsigned char>);
TINSTANCE(roundtrip, unsigned char, 4, StdHolder<std::vector<unsigned char>>);
TINSTANCE(roundtrip, char, 5, StdHolder<std::vector<char>>);
TINSTANCE(roundtrip, signed char, -1, StdHolder<std::vector<signed char>>);

// Files made independently, and files which are not readable
template <Index N>
void foreign(mc::Ctx& c) {
  using R = Raster<unsigned char, N>;
  const int dim = c.range(1, 4);
  const auto shape = c.of(boxPositions(Coord(dim, 1), Coord(dim, dim >= 4 ? 2 : 3)));
  c.shard();
  const auto image = image29(shape, 1);
  File29 file("f");
  Fits fits(file.path);
  const int kind = c.pick(9);
  c.note("shape ", shape, " kind ", kind);
  bool valid = (N < 0 || dim == N) && kind <= 1;
  switch (kind) {
    case 0:
    case 1:
      dump29(file.path, encode29(image, kind == 0 ? 8 : 16));
      break;
    case 2: // Missing
      break;
    case 3:
      dump29(file.path, "");
      break;
    case 4:
      dump29(file.path, std::string(10000, 'x'));
      break;
    case 5: { // 16 bits which do not fit
      auto content = encode29(image, 16);
      content[2880] = 1;
      dump29(file.path, content);
      break;
    }
    case 6: { // No end
      auto content = encode29(image);
      const auto end = content.find("END   ");
      content.replace(end, 3, "ENE");
      dump29(file.path, content);
      break;
    }
    case 7: // Data missing
      dump29(file.path, encode29(image).substr(0, 2880));
      break;
    default: { // Wrong length
      auto content = encode29(image);
      content[80 * 3 + 29] = '-';
      dump29(file.path, content);
    }
  }
  Image29 got;
  const bool failed = readFails29<R>(fits, got);
  EXPECT(c, failed == !valid, failed ? "cannot read" : "made-up raster of shape", got.shape);
  EXPECT(c, failed || got == image, "got", got.shape, got.pixels);
  c.step();
  // The object may be used afterwards
  dump29(file.path, encode29(image));
  if (N < 0 || dim == N) {
    EXPECT(c, !readFails29<R>(fits, got) && got == image, "the object cannot be used after a failure");
  } else {
    EXPECT(c, readFails29<R>(fits, got), "raster of wrong dimension");
    EXPECT(c, (!readFails29<Raster<unsigned char, -1>>(fits, got)) && got == image, "the object cannot be used after a failure");
  }
  c.outcome(kind * 2 + failed);
}

TINSTANCE(foreign, 1);
TINSTANCE(foreign, 2);
TINSTANCE(foreign, 3);
TINSTANCE(foreign, -1);

// Paths which cannot be written
SCENARIO(unwritable) {
  const auto image = image29({3, 2}, c.pick(2));
  File29 file("u");
  std::string path = file.path;
  const int kind = c.pick(3);
  const std::string content = kind == 0 ? encode29(image29({2}, 3)) : "Hello";
  if (kind == 2) {
    path = "missing-folder/" + file.path;
  } else {
    dump29(path, content);
  }
  Fits fits(path);
  for (int i = 0; i < 3; ++i) {
    EXPECT(c, writeFails29(fits, raster29<Raster<char>>(image)), "no exception");
    EXPECT(c, kind == 2 ? !exists29(path) : slurp29(path) == content, "the file was modified");
    c.step();
  }
  if (kind != 2) {
    ::unlink(path.c_str());
    Image29 got;
    fits.write(raster29<Raster<char>>(image));
    EXPECT(c, decode29(slurp29(path), got) && got == image, "the file is wrong");
  }
  c.outcome(kind);
}

// Any truncation
template <Index N>
void truncation(mc::Ctx& c) {
  const Coord shape = N == 1 ? Coord {3000} : c.of(std::vector<Coord> {{3, 2}, {45, 64}});
  const auto image = image29(shape, 5);
  const auto content = encode29(image);
  const long size = 2880 + product(shape);
  const long length = c.range(0, content.size());
  if (!c.thorough() && length % 7 && std::abs(length - size) > 10 && length % 80 && (length + 1) % 2880 > 2) {
    c.prune();
  }
  c.shard();
  c.note("shape ", shape, " truncated at ", length);
  File29 file("t");
  dump29(file.path, content.substr(0, length));
  Fits fits(file.path);
  for (int i = 0; i < 2; ++i) {
    Image29 got;
    const bool failed = i == 0 ? readFails29<Raster<char, N>>(fits, got) : readFails29<Raster<unsigned char, -1>>(fits, got);
    EXPECT(c, failed || got == image, "made-up raster of shape", got.shape, "last pixel", got.pixels.empty() ? -1 : got.pixels.back());
    EXPECT(c, failed || length >= size, "no exception");
    EXPECT(c, !failed || length < long(content.size()), "cannot read the complete file");
    c.step();
    c.outcome(failed);
  }
  EXPECT(c, slurp29(file.path) == content.substr(0, length), "the file was modified");
  dump29(file.path, content);
  Image29 got;
  EXPECT(c, (!readFails29<Raster<char, N>>(fits, got)) && got == image, "the object cannot be used after a failure");
}

TINSTANCE(truncation, 1);
TINSTANCE(truncation, 2);
