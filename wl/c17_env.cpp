// C17: what surrounds the program changes from repetition to repetition: where the heap puts things, what the clocks say, what the
// system's sources of randomness return. All of it comes from a stream of its own, so that a run is repeatable all the same.
#include "wl/c17_env.hpp"

#include "simrt/fib.hpp"

#include <cstdlib>
#include <ctime>
#include <new>
#include <random>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace {

std::uint64_t state = 88172645463325252ull;
std::uint64_t clock_ns;
bool on;
bool reuse;           // memory that was freed comes back, in an order that the noise decides
void** kept;          // what is not given back to malloc before the end
constexpr std::size_t kClasses = 64;
void** avail[kClasses];
std::uint64_t epoch;
std::uint64_t used[4];

std::uint64_t noise() {
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return state * 0x2545F4914F6CDD1Dull;
}

// A block: [link][size class][experiment][raw block] object. Addresses come back only where the noise says so, and not at all without `reuse`.
void* take(std::size_t n) {
  const std::size_t c = (n + 15) / 16;
  if (reuse && c < kClasses && avail[c] != nullptr && (noise() >> 33) % 8 != 0) {
    void** p = avail[c];
    if ((noise() >> 33) % 4 == 0 && *p != nullptr) {
      void** second = static_cast<void**>(*p);
      *p = *second;
      p = second;
    } else {
      avail[c] = static_cast<void**>(*p);
    }
    return p + 4;
  }
  const std::size_t pad = on ? (noise() >> 33) % 32 * 16 : 0;
  char* raw = static_cast<char*>(std::malloc(c * 16 + 32 + pad));
  if (raw == nullptr) throw std::bad_alloc{};
  void** p = reinterpret_cast<void**>(raw + pad);
  p[1] = reinterpret_cast<void*>(c);
  p[2] = reinterpret_cast<void*>(on ? epoch : 0);
  p[3] = raw;
  return p + 4;
}
void give(void* object) noexcept {
  if (object == nullptr) return;
  void** p = static_cast<void**>(object) - 4;
  if (!on) return std::free(p[3]);
  const auto c = reinterpret_cast<std::size_t>(p[1]);
  void**& list = reuse && c < kClasses && reinterpret_cast<std::uint64_t>(p[2]) == epoch ? avail[c] : kept;
  p[0] = list;
  list = p;
}
void flush(void**& list) {
  while (list != nullptr) {
    void** p = list;
    list = static_cast<void**>(*p);
    std::free(p[3]);
  }
}

}  // namespace

void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }

extern "C" {
int clock_gettime(clockid_t id, timespec* ts) noexcept {
  if (!on) return int(syscall(SYS_clock_gettime, id, ts));
  ++used[0];
  clock_ns += noise() % 1000000;
  ts->tv_sec = time_t(1600000000 + clock_ns / 1000000000);
  ts->tv_nsec = long(clock_ns % 1000000000);
  return 0;
}
int gettimeofday(timeval* tv, void*) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t != nullptr) *t = ts.tv_sec;
  return ts.tv_sec;
}
int rand() noexcept {
  ++used[1];
  return int(noise() >> 33);
}
long random() noexcept {
  ++used[1];
  return long(noise() >> 33);
}
// std::random_device
[[gnu::weak]] unsigned __real__ZNSt13random_device9_M_getvalEv(std::random_device*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(std::random_device* d) {
  if (!on) return __real__ZNSt13random_device9_M_getvalEv(d);
  ++used[2];
  return unsigned(noise() >> 32);
}
}

namespace c17 {

void env(std::uint64_t seed, bool with_reuse) {
  static const char* const process = std::getenv("SIM_NOISE");
  state = (seed * 0x9E3779B97F4A7C15ull + (process != nullptr ? std::strtoull(process, nullptr, 10) * 0xD1342543DE82EF95ull : 0)) | 1;
  for (int i = 0; i < 4; ++i) noise();
  clock_ns = noise() % 1000000000000;
  if (!on) ++epoch;
  on = true;
  reuse = with_reuse;
}
void env_off() {
  on = reuse = false;
  flush(kept);
  for (auto& l : avail) flush(l);
}

}  // namespace c17
