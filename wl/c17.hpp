// C17: programs whose executions are compared.
#pragma once
#include "wl/fib_kit.hpp"

#include <array>
#include <chrono>
#include <vector>

namespace c17 {

using sim::u32;
using sim::u64;
using ns = std::chrono::nanoseconds;

// The parameters of a program. All of them are drawn before the program runs; a fiber reads its own ones, so what a program does is a
// function of the script only.
struct Script {
  u32 kind = 0;
  u32 k = 0;     // how many fibers or jobs
  u32 len = 0;   // how much each one does
  std::vector<u32> d;
  static Script make(u32 kinds);
};
class Reader {
 public:
  Reader(const Script& s, u32 who) : _s{s}, _i{who * 7} {}
  u32 operator()(u32 n) { return _s.d.empty() || n == 0 ? 0 : _s.d[_i++ % _s.d.size()] % n; }
  bool p(u32 num, u32 den) { return (*this)(den) >= den - num; }

 private:
  const Script& _s;
  u32 _i;
};

void ev(u32 kind, u64 a, u64 b = 0);  // something the program can see
inline u64 now() { return fk::now(); }

constexpr u32 kKinds = 10;
void run_segment(const Script& s);

void seg_atomics(const Script& s);
void seg_locks(const Script& s);
void seg_timed(const Script& s);
void seg_cv(const Script& s);
void seg_pool(const Script& s);
void seg_strand(const Script& s);
void seg_wait(const Script& s);
void seg_coro(const Script& s);
void seg_comb(const Script& s);
void seg_misc(const Script& s);

}  // namespace c17
