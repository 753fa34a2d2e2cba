#ifndef C33_HPP
#define C33_HPP
// C33: controlled scheduler (C33rt.cpp)
// The operations are compiled with calls to hooks at each memory access, and run in two threads
// such that only one progresses at a time, and hands over at chosen scheduling points only.
#include <cstdint>
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace rt {

// Where a conflict occurs: absolute address of static or shared memory, or rank of a block allocated by a thread
struct Place {
  int owner; // 0 for absolute addresses
  std::uintptr_t at; // Address / 8, or rank of the block
  bool operator<(const Place& o) const {
    return owner < o.owner || (owner == o.owner && at < o.at);
  }
};

struct Options {
  int first = 0; // Thread which runs first
  std::vector<long> switches; // Number of points before each switch
  bool coarse = false; // Reads of the shared objects are scheduling points
  const std::set<Place>* suspects = nullptr; // Places whose accesses are scheduling points
};

struct Report {
  long points = 0; // Scheduling points
  long accesses = 0; // Memory accesses
  long forced = 0; // Switches due to a lock
  long done = 0; // Chosen switches
  std::set<Place> conflicts; // Places accessed by both threads, at least once for writing
  std::exception_ptr errors[2];
  bool stuck = false;
};

// Run two functions in threads, from the initial state of the static variables
Report run(const std::function<void()>& f, const std::function<void()>& g, const Options& options);

// Run something else from the initial state of the static variables
void fresh();

// Allocations by the calling thread are those of shared objects
std::size_t statics(); // Number of static variables of the library

} // namespace rt

#endif
