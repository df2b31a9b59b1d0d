// Deterministic simulator: public API for workloads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>

namespace sim {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---- violation classes -----------------------------------------------------
enum Cls : u32 {
  kOracle = 1u << 0,    // a workload oracle said no
  kHang = 1u << 1,      // nothing runnable, no timer, not everybody finished
  kProgress = 1u << 2,  // step limit reached under a fair schedule
  kRace = 1u << 3,      // two unordered conflicting accesses
  kUaf = 1u << 4,       // use after free / after return / out of bounds
  kFree = 1u << 5,      // double or invalid free
  kLeak = 1u << 6,      // arena block alive at quiescence
  kCrash = 1u << 7,     // signal, terminate
};

// ---- fault kinds -------------------------------------------------------------
enum Fault : u32 {
  kPreempt,        // thread preempted at a synchronisation operation
  kPick,           // non-default choice of the next thread when the current one blocks
  kWeakCas,        // compare_exchange_weak fails spuriously
  kSpuriousCv,     // condition variable wakes without notify
  kNotifyOrder,    // notify wakes another waiter than the first
  kTimeJump,       // clock jumps to the next deadline although threads could run
  kStaleLoad,      // a load returns an older value allowed by the memory model
  kStall,          // a thread is descheduled for a long time
  kReuse,          // allocator reuses a freed block (ABA pressure)
  kReject,         // executor refuses a job
  kThrow,          // callback throws
  kDrop,           // promise/future/task dropped by its owner
  kStopExec,       // executor stopped
  kTimeout,        // a timed wait expired
  kUser0, kUser1, kUser2, kUser3,
  kFaultKinds
};
extern const char* const kFaultNames[kFaultKinds];

// ---- choices -----------------------------------------------------------------
u32 gen(u32 n);                       // generation stream: [0,n), 0 is the simplest
bool genp(u32 num, u32 den);          // true with probability num/den (0 = false = simplest)
u32 choose(u32 n, Fault kind);        // schedule stream: [0,n), 0 is the default
bool flip(u32 num, u32 den, Fault kind);
void count(Fault kind);               // a fault planned in the generation stream has fired
bool knob(u32 num, u32 den);          // per-run swarm knob (generation stream)

// ---- checking ----------------------------------------------------------------
[[noreturn]] void fail(Cls cls, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define SIM_CHECK(cond, key, ...)                                   \
  do {                                                              \
    if (!(cond)) ::sim::fail(::sim::kOracle, key, __VA_ARGS__);     \
  } while (0)
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace (only formatted when tracing) and event hash
void ev(u32 a, u64 b = 0, u64 c = 0);                                  // cheap event for the hash / coverage
void probe(const char* name);                                          // "this rare condition was hit"

// ---- world -------------------------------------------------------------------
int self();                  // fiber id (0 is the workload's main thread)
u64 now();                   // virtual nanoseconds
u64 steps();                 // scheduling points so far (total order on events)
void yield();                // scheduling point
bool active();
int fiber_count();
// fibers other than `self` that are blocked on a mutex/cv/join/sleep
bool is_blocked(int fiber);
u64 allocs(int fiber = -1);   // operator new calls made by that fiber (-1: self) outside HostScope
// the nth (1-based) allocation that this fiber makes from now on throws std::bad_alloc, until end_fail_alloc(), which tells whether it did
void fail_alloc(u32 nth);
bool end_fail_alloc();
u64 alloc_total();
u64 block_ops(int fiber = -1);  // times the fiber performed an operation that can block (mutex contention, cv wait, join, sleep)
u64 live_blocks();
u64 live_mark();             // remembers the current allocation sequence number
void check_leaks_now(const char* key);  // fail if any arena block is alive
void scribble_stack();       // overwrite the dead part of the own stack
u64 rnd_seed();

// Accesses/allocations/atomics of this fiber are invisible to the simulator inside the scope (harness bookkeeping).
struct HostScope {
  HostScope() noexcept;
  ~HostScope();
  HostScope(const HostScope&) = delete;
};
// Forget previous accesses to a range (harness-owned memory)
void forget(void* p, std::size_t n);
// assert: the calling thread is ordered after everything `fiber` did until its event `clk`
struct Stamp {
  int tid = -1;
  u32 clk = 0;
};
Stamp stamp();                 // "everything this thread did so far"
bool ordered_after(Stamp s);   // is s happens-before the current point?

// ---- workload registration ------------------------------------------------------
struct Workload {
  const char* name;
  const char* property;  // "C01"
  void (*body)();
  u32 mask;     // violation classes that count (others end the run silently as "masked")
  u32 weight;   // relative share of runs
  u32 max_steps;
  Workload* next;
  Workload(const char* name, const char* property, void (*body)(), u32 mask, u32 weight = 1, u32 max_steps = 20000);
};

constexpr u32 kSafety = kOracle | kHang | kProgress | kUaf | kFree | kCrash;
constexpr u32 kAllButLeak = kSafety | kRace;
constexpr u32 kAll = kAllButLeak | kLeak;

}  // namespace sim
