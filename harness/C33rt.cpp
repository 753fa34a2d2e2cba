// C33: controlled scheduler; this file is not instrumented
#include "C33.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void* __real_malloc(std::size_t);
void __real_free(void*);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
}

namespace {

template <typename T>
struct Raw { // Allocator which is not tracked
  using value_type = T;
  Raw() = default;
  template <typename U>
  Raw(const Raw<U>&) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(__real_malloc(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) {
    __real_free(p);
  }
  template <typename U>
  bool operator==(const Raw<U>&) const {
    return true;
  }
  template <typename U>
  bool operator!=(const Raw<U>&) const {
    return false;
  }
};

struct Block {
  std::uintptr_t begin;
  std::size_t size;
  int owner;
  std::uintptr_t rank;
};

using Blocks = std::map<std::uintptr_t, Block, std::less<std::uintptr_t>, Raw<std::pair<const std::uintptr_t, Block>>>;

Blocks& blocks() {
  static Blocks* b = new (__real_malloc(sizeof(Blocks))) Blocks;
  return *b;
}

struct Thread {
  int id; // 1 or 2
  std::uintptr_t stackBegin, stackEnd;
  sem_t baton;
  bool finished;
  std::uintptr_t allocations;
  long streak; // Points since the last switch
};

thread_local Thread* t_self = nullptr; // In a controlled thread
thread_local int t_nested = 0; // In the runtime

struct Control {
  Thread threads[2];
  const rt::Options* options;
  rt::Report* report;
  std::size_t nextSwitch;
  long untilSwitch;
  std::map<rt::Place, int>* accessed; // Masks: 1, 2: read by; 4, 8: written by
  volatile bool free_; // Out of control
};
Control* g_control = nullptr;

struct Static {
  std::uintptr_t begin;
  std::size_t size;
  std::string initial;
};
std::vector<Static>* g_statics = nullptr;
std::uintptr_t g_staticsBegin = 0, g_staticsEnd = 0;

// Static variables of the library: symbols of the executable in writable memory
void findStatics() {
  g_statics = new std::vector<Static>;
  const int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st)) {
    return;
  }
  const char* m = static_cast<const char*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
  const auto* eh = reinterpret_cast<const Elf64_Ehdr*>(m);
  const auto* sh = reinterpret_cast<const Elf64_Shdr*>(m + eh->e_shoff);
  std::uintptr_t base = 0;
  dl_iterate_phdr(
      [](dl_phdr_info* info, std::size_t, void* out) {
        *static_cast<std::uintptr_t*>(out) = info->dlpi_addr;
        return 1;
      },
      &base);
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB) {
      continue;
    }
    const auto* sym = reinterpret_cast<const Elf64_Sym*>(m + sh[i].sh_offset);
    const char* names = m + sh[sh[i].sh_link].sh_offset;
    for (std::size_t j = 0; j < sh[i].sh_size / sizeof(Elf64_Sym); ++j) {
      const auto& s = sym[j];
      if (ELF64_ST_TYPE(s.st_info) != STT_OBJECT || s.st_size == 0 || s.st_shndx >= eh->e_shnum) {
        continue;
      }
      const auto flags = sh[s.st_shndx].sh_flags;
      const char* section = m + sh[eh->e_shstrndx].sh_offset + sh[s.st_shndx].sh_name;
      if (!(flags & SHF_WRITE) || (flags & SHF_TLS) || std::strstr(section, "relro") || std::strstr(section, ".rel.ro")) {
        continue;
      }
      const char* name = names + s.st_name;
      if (std::strstr(name, "4Litl") && std::strncmp(name, "_ZTV", 4) && std::strncmp(name, "_ZTI", 4)) {
        const auto begin = base + s.st_value;
        g_statics->push_back({begin, s.st_size, std::string(reinterpret_cast<const char*>(begin), s.st_size)});
      }
    }
  }
  munmap(const_cast<char*>(m), st.st_size);
  close(fd);
  std::sort(g_statics->begin(), g_statics->end(), [](const Static& a, const Static& b) {
    return a.begin < b.begin;
  });
  if (!g_statics->empty()) {
    g_staticsBegin = g_statics->front().begin;
    for (const auto& s : *g_statics) {
      g_staticsEnd = std::max(g_staticsEnd, s.begin + s.size);
    }
  }
}

bool isStatic(std::uintptr_t a) {
  if (a < g_staticsBegin || a >= g_staticsEnd) {
    return false;
  }
  auto it = std::upper_bound(g_statics->begin(), g_statics->end(), a, [](std::uintptr_t v, const Static& s) {
    return v < s.begin;
  });
  while (it != g_statics->begin()) {
    --it;
    if (a < it->begin + it->size) {
      return true;
    }
    if (a - it->begin > (1 << 20)) {
      break;
    }
  }
  return false;
}

const Block* findBlock(std::uintptr_t a) {
  auto& b = blocks();
  auto it = b.upper_bound(a);
  if (it == b.begin()) {
    return nullptr;
  }
  --it;
  return a < it->second.begin + std::max<std::size_t>(it->second.size, 1) ? &it->second : nullptr;
}

void wait(Thread& t) {
  auto& c = *g_control;
  for (;;) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 5;
    if (sem_timedwait(&t.baton, &ts) == 0) {
      return;
    }
    if (errno == ETIMEDOUT) { // The other thread waits for something else
      c.free_ = true;
      c.report->stuck = true;
      return;
    }
  }
}

// Hand over to the other thread
bool handOver(Thread& self) {
  auto& c = *g_control;
  Thread& other = c.threads[2 - self.id];
  if (other.finished || c.free_) {
    return false;
  }
  other.streak = 0;
  sem_post(&other.baton);
  wait(self);
  return true;
}

void point(Thread& self, bool atomic) {
  auto& c = *g_control;
  if (c.free_) {
    return;
  }
  ++c.report->points;
  if (c.nextSwitch < c.options->switches.size()) {
    if (c.untilSwitch == 0) {
      ++c.nextSwitch;
      c.untilSwitch = c.nextSwitch < c.options->switches.size() ? c.options->switches[c.nextSwitch] : -1;
      ++c.report->done;
      handOver(self);
    } else {
      --c.untilSwitch;
    }
  }
  if (atomic && ++self.streak > 2000) { // Spinning
    self.streak = 0;
    ++c.report->forced;
    handOver(self);
  }
}

void access(const void* p, std::size_t size, bool write, bool atomic = false) {
  Thread* self = t_self;
  if (!self || t_nested || size == 0) {
    return;
  }
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if (a >= self->stackBegin && a < self->stackEnd) {
    return;
  }
  ++t_nested;
  auto& c = *g_control;
  ++c.report->accesses;
  bool isPoint = false;
  bool after = false;
  rt::Place place {0, 0};
  bool tracked = false;
  if (isStatic(a)) {
    place = {0, a / 8};
    tracked = isPoint = true;
  } else if (const Block* b = findBlock(a)) {
    tracked = true;
    if (b->owner == 0) {
      place = {0, a / 8};
      isPoint = write || c.options->coarse;
      after = write;
    } else {
      place = {b->owner, b->rank};
      isPoint = b->owner != self->id;
      after = isPoint && write;
    }
  }
  if (tracked) {
    for (auto at = place.at; at <= (place.owner ? place.at : (a + size - 1) / 8); ++at) {
      const rt::Place q {place.owner, at};
      (*c.accessed)[q] |= self->id << (write ? 2 : 0);
      if (c.options->suspects && c.options->suspects->count(q)) {
        isPoint = true;
        after |= write;
      }
    }
  }
  if (isPoint) {
    point(*self, atomic);
  }
  (void)after; // Any later access of interest is a point
  --t_nested;
}

struct Start {
  Thread* thread;
  const std::function<void()>* f;
  std::exception_ptr* error;
};

void* threadMain(void* arg) {
  auto& s = *static_cast<Start*>(arg);
  pthread_attr_t attr;
  pthread_getattr_np(pthread_self(), &attr);
  void* stack;
  std::size_t size;
  pthread_attr_getstack(&attr, &stack, &size);
  pthread_attr_destroy(&attr);
  s.thread->stackBegin = reinterpret_cast<std::uintptr_t>(stack);
  s.thread->stackEnd = s.thread->stackBegin + size; // Thread-local variables included
  wait(*s.thread);
  t_self = s.thread;
  try {
    (*s.f)();
  } catch (...) {
    ++t_nested;
    *s.error = std::current_exception();
    --t_nested;
  }
  t_self = nullptr;
  s.thread->finished = true;
  Thread& other = g_control->threads[2 - s.thread->id];
  if (!other.finished) {
    sem_post(&other.baton);
  }
  return nullptr;
}

void* allocate(std::size_t n) {
  void* p = __real_malloc(n ? n : 1);
  if (p && t_nested == 0) {
    ++t_nested;
    Thread* self = t_self;
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    blocks()[a] = {a, n, self ? self->id : 0, self ? self->allocations++ : 0};
    --t_nested;
  }
  return p;
}

void release(void* p) {
  if (p && t_nested == 0) {
    ++t_nested;
    blocks().erase(reinterpret_cast<std::uintptr_t>(p));
    --t_nested;
  }
  __real_free(p);
}

} // namespace

namespace rt {

std::size_t statics() {
  if (!g_statics) {
    ++t_nested;
    findStatics();
    --t_nested;
  }
  return g_statics->size();
}

void fresh() {
  statics();
  for (const auto& s : *g_statics) {
    __real_memcpy(reinterpret_cast<void*>(s.begin), s.initial.data(), s.size);
  }
}

Report run(const std::function<void()>& f, const std::function<void()>& g, const Options& options) {
  fresh();
  ++t_nested;
  Report report;
  std::map<Place, int> accessed;
  Control control;
  control.options = &options;
  control.report = &report;
  control.nextSwitch = 0;
  control.untilSwitch = options.switches.empty() ? -1 : options.switches[0];
  control.accessed = &accessed;
  control.free_ = false;
  g_control = &control;
  Start starts[2];
  pthread_t ids[2];
  for (int i = 0; i < 2; ++i) {
    auto& t = control.threads[i];
    t.id = i + 1;
    t.finished = false;
    t.allocations = 0;
    t.streak = 0;
    sem_init(&t.baton, 0, 0);
    starts[i] = {&t, i ? &g : &f, &report.errors[i]};
  }
  for (int i = 0; i < 2; ++i) {
    pthread_create(&ids[i], nullptr, threadMain, &starts[i]);
  }
  sem_post(&control.threads[options.first].baton);
  for (int i = 0; i < 2; ++i) {
    pthread_join(ids[i], nullptr);
  }
  for (int i = 0; i < 2; ++i) {
    sem_destroy(&control.threads[i].baton);
  }
  g_control = nullptr;
  for (const auto& e : accessed) {
    const int m = e.second;
    if ((m & 5) && (m & 10) && (m & 12)) {
      report.conflicts.insert(e.first);
    }
  }
  --t_nested;
  return report;
}

} // namespace rt

// Memory ////////////////////////////////////////////////////////////////////////////////////////

void* operator new(std::size_t n) {
  void* p = allocate(n);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
void* operator new[](std::size_t n) {
  return operator new(n);
}
void operator delete(void* p) noexcept {
  release(p);
}
void operator delete[](void* p) noexcept {
  release(p);
}
void operator delete(void* p, std::size_t) noexcept {
  release(p);
}
void operator delete[](void* p, std::size_t) noexcept {
  release(p);
}

extern "C" {

void* __wrap_malloc(std::size_t n) {
  return allocate(n);
}
void __wrap_free(void* p) {
  release(p);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
  access(s, n, false);
  access(d, n, true);
  return __real_memmove(d, s, n);
}
void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
  access(s, n, false);
  access(d, n, true);
  return __real_memcpy(d, s, n);
}
void* __wrap_memset(void* d, int v, std::size_t n) {
  access(d, n, true);
  return __real_memset(d, v, n);
}

// Locks /////////////////////////////////////////////////////////////////////////////////////////

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Thread* self = t_self;
  if (!self || t_nested) {
    return __real_pthread_mutex_lock(m);
  }
  ++t_nested;
  point(*self, false);
  for (;;) {
    const int r = pthread_mutex_trylock(m);
    if (r != EBUSY) {
      --t_nested;
      return r;
    }
    ++g_control->report->forced;
    if (!handOver(*self)) {
      const int b = __real_pthread_mutex_lock(m);
      --t_nested;
      return b;
    }
  }
}

int __cxa_guard_acquire(std::uint64_t* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  access(g, 1, true);
  for (;;) {
    if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) {
      return 0;
    }
    unsigned char expected = 0;
    if (__atomic_compare_exchange_n(const_cast<unsigned char*>(&b[1]), &expected, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
      return 1;
    }
    if (t_self && !t_nested) {
      ++t_nested;
      ++g_control->report->forced;
      if (!handOver(*t_self)) {
        sched_yield();
      }
      --t_nested;
    } else {
      sched_yield();
    }
  }
}
void __cxa_guard_release(std::uint64_t* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  access(g, 1, true);
  __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
  __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(std::uint64_t* g) {
  auto* b = reinterpret_cast<volatile unsigned char*>(g);
  __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}

// Hooks /////////////////////////////////////////////////////////////////////////////////////////

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { \
    access(p, N, false); \
  } \
  void __tsan_write##N(void* p) { \
    access(p, N, true); \
  } \
  void __tsan_volatile_read##N(void* p) { \
    access(p, N, false); \
  } \
  void __tsan_volatile_write##N(void* p) { \
    access(p, N, true); \
  } \
  void __tsan_unaligned_read##N(void* p) { \
    access(p, N, false); \
  } \
  void __tsan_unaligned_write##N(void* p) { \
    access(p, N, true); \
  }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, std::size_t n) {
  access(p, n, false);
}
void __tsan_write_range(void* p, std::size_t n) {
  access(p, n, true);
}
void __tsan_vptr_update(void** p, void*) {
  access(p, 8, true);
}
void __tsan_vptr_read(void** p) {
  access(p, 8, false);
}

#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { \
    access((const void*)a, sizeof(T), false, true); \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
    access((const void*)a, sizeof(T), true, true); \
    return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
  __sync_synchronize();
}
void __tsan_atomic_signal_fence(int) {}
}
