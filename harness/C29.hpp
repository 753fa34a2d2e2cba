#ifndef C29_HPP
#define C29_HPP
// C29: FITS files
#include "LitlIo/Fits.h"
#include "util.hpp"
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace Litl;

using Bytes = std::vector<unsigned char>;

struct Image29 { // What a file contains
  Coord shape;
  Bytes pixels;
  bool operator==(const Image29& o) const {
    return shape == o.shape && pixels == o.pixels;
  }
};

inline std::string path29(const std::string& name) {
  return "w" + std::to_string(getpid()) + "-" + name + ".fits";
}

inline bool exists29(const std::string& path) {
  struct stat s;
  return stat(path.c_str(), &s) == 0;
}

inline std::string slurp29(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

inline void dump29(const std::string& path, const std::string& content) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(content.data(), content.size());
}

// Independent FITS codec

inline std::string card29(const std::string& key, const std::string& value) {
  std::string s = key;
  s.resize(8, ' ');
  s += "= ";
  s += std::string(20 - std::min<std::size_t>(20, value.size()), ' ') + value;
  s.resize(80, ' ');
  return s;
}

inline std::string encode29(const Image29& image, int bitpix = 8) {
  std::string s = card29("SIMPLE", "T") + card29("BITPIX", std::to_string(bitpix)) + card29("NAXIS", std::to_string(image.shape.size()));
  for (std::size_t i = 0; i < image.shape.size(); ++i) {
    s += card29("NAXIS" + std::to_string(i + 1), std::to_string(image.shape[i]));
  }
  std::string end = "END";
  end.resize(80, ' ');
  s += end;
  s.resize((s.size() + 2879) / 2880 * 2880, ' ');
  for (auto p : image.pixels) {
    for (int i = bitpix / 8 - 1; i > 0; --i) {
      s += '\0';
    }
    s += char(p);
  }
  s.resize((s.size() + 2879) / 2880 * 2880, '\0');
  return s;
}

// Returns whether the content is a complete file
inline bool decode29(const std::string& content, Image29& out) {
  std::map<std::string, std::string> cards;
  std::size_t at = 0;
  for (;; at += 80) {
    if (at + 80 > content.size()) {
      return false;
    }
    auto key = content.substr(at, 8);
    key.erase(key.find_last_not_of(' ') + 1);
    if (key == "END") {
      break;
    }
    if (content[at + 8] == '=') {
      cards[key] = content.substr(at + 10, 20);
    }
  }
  at = (at + 80 + 2879) / 2880 * 2880;
  if (cards["SIMPLE"].find('T') == std::string::npos || std::atoi(cards["BITPIX"].c_str()) != 8) {
    return false;
  }
  const int naxis = std::atoi(cards["NAXIS"].c_str());
  out.shape.clear();
  Index size = naxis > 0;
  for (int i = 1; i <= naxis; ++i) {
    out.shape.push_back(std::atol(cards["NAXIS" + std::to_string(i)].c_str()));
    size *= out.shape.back();
  }
  if (at + size > content.size()) {
    return false;
  }
  out.pixels.assign(content.begin() + at, content.begin() + at + size);
  return true;
}

inline Image29 image29(const Coord& shape, int seed) {
  Image29 out {shape, {}};
  for (Index i = 0; i < product(shape); ++i) {
    out.pixels.push_back((i * (2 * seed + 37) + seed * 91 + (i >> 8)) & 255);
  }
  return out;
}

template <typename TRaster>
TRaster raster29(const Image29& image) {
  TRaster out(pos<TRaster::Dimension>(image.shape));
  for (std::size_t i = 0; i < image.pixels.size(); ++i) {
    out.data()[i] = typename TRaster::Value(image.pixels[i]);
  }
  return out;
}

template <typename TRaster>
Image29 image29(const TRaster& raster) {
  Image29 out {coord<TRaster::Dimension>(raster.shape()), {}};
  for (std::size_t i = 0; i < raster.size(); ++i) {
    out.pixels.push_back((unsigned char)(raster.data()[i]));
  }
  return out;
}

// Number of open file descriptors
inline int descriptors29() {
  int out = 0;
  for (int fd = 0; fd < 256; ++fd) {
    out += fcntl(fd, F_GETFD) >= 0;
  }
  return out;
}

// No file is left open, whether or not the operation succeeded
struct Closed29 {
  int before = descriptors29();
  void check(const char* what) const {
    const int after = descriptors29();
    if (after != before) {
      throw mc::Violation {std::string("file left open after ") + what + ": " + std::to_string(before) + " descriptors, then " + std::to_string(after)};
    }
  }
};

// Read and return whether an exception was thrown
template <typename TRaster>
bool readFails29(Fits& fits, Image29& out) {
  const Closed29 closed;
  try {
    out = image29(fits.read<TRaster>());
  } catch (const mc::Violation&) {
    throw;
  } catch (const std::exception&) {
    closed.check("failed reading");
    return true;
  }
  closed.check("reading");
  return false;
}

template <typename TRaster>
bool writeFails29(Fits& fits, const TRaster& raster) {
  const Closed29 closed;
  try {
    fits.write(raster);
  } catch (const mc::Violation&) {
    throw;
  } catch (const std::exception&) {
    closed.check("failed writing");
    return true;
  }
  closed.check("writing");
  return false;
}

struct File29 { // Removed at the end
  std::string path;
  explicit File29(const std::string& name) : path(path29(name)) {
    ::unlink(path.c_str());
  }
  ~File29() {
    ::unlink(path.c_str());
  }
};

#endif
