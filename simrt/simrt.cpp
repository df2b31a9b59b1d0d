// Deterministic simulator runtime: fibers as threads, instrumented memory, virtual time, recorded choices.
// Compiled WITHOUT -fsanitize=thread; linked instead of libtsan into instrumented programs.
#include "sim.hpp"
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <elf.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
extern char __data_start[];
extern char _end[];
extern char __executable_start[];
extern char etext[];
}

namespace sim {

const char* const kFaultNames[kFaultKinds] = {
  "preempt", "pick", "weak_cas_fail", "spurious_cv_wake", "notify_order", "time_jump", "stale_load", "stall",
  "alloc_reuse", "executor_reject", "callback_throw", "drop", "executor_stop", "timeout",
  "user0", "user1", "user2", "user3"};

namespace {

constexpr int kMaxF = 40;
constexpr std::size_t kStack = 512 * 1024;
constexpr std::size_t kHeap = 48ull << 20;
constexpr std::size_t kStacksSize = kMaxF * kStack;
constexpr std::size_t kRegion = kStacksSize + kHeap;
constexpr std::uintptr_t kBase = 0x100000000000ull;

enum St : u8 { kFree_, kRun, kBlocked, kDone };
enum Why : u8 { wNone, wMutex, wCond, wJoin, wSleep, wGuard, wFutex, wRw };
const char* const kWhy[] = {"-", "mutex", "condvar", "join", "sleep", "guard", "futex", "rwlock"};

struct VC {
  u32 c[kMaxF];
};

struct Fiber {
  int id;
  St st;
  Why why;
  bool timed;
  bool timed_out;
  bool joined, detached;
  int host;
  void* sp;
  char* lo;
  char* hi;
  char* low_touched;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  std::uintptr_t wait_on;
  u64 deadline;
  u64 allocs;
  u32 alloc_fail;  // the n-th allocation from now fails
  bool alloc_failed;
  u64 blocks;
  VC vc;     // happens-before clock
  VC acq;    // pending for acquire fence
  VC rel;    // snapshot at last release fence
  VC vis;    // additional visibility for stale loads (seq_cst fences)
  bool has_rel;
  u32 prio;
  u64 stalled_until;
  u32 tls_n;
  char tls[512];
  struct Dtor {
    void (*f)(void*);
    void* o;
  } dtors[32];
  int ndtors;
  void* keys[64];
};

struct Cell {
  u32 w;
  u32 r[3];
};

struct Store {
  u64 val;
  u64 step;
  u32 clk;
  u8 tid;
  u8 size;
  bool has_sync;
  VC sync;
};
constexpr u32 kHist = 6;

struct Loc {
  std::uintptr_t addr;
  VC sync;
  VC acc;
  VC accw;
  u32 seen[kMaxF];
  u32 seenclk[kMaxF];
  u32 n;  // stores recorded so far (index of next)
  Store h[kHist];
};

struct Mutex {
  std::uintptr_t addr;
  int owner;     // -1 free
  int count;     // recursion
  int readers;   // rwlock
  bool recursive;
  VC vc;
};

struct Cond {
  std::uintptr_t addr;
  int q[kMaxF];
  int n;
};

struct Block {
  u32 off, size;
  bool live;
  int tid;
  std::uintptr_t pc;
  u64 seq;
  u64 step;
};

struct Rng {
  u64 s[2];
  void seed(u64 x) {
    auto mix = [&]() {
      x += 0x9e3779b97f4a7c15ull;
      u64 z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      return z ^ (z >> 31);
    };
    s[0] = mix();
    s[1] = mix();
  }
  u64 next() {
    u64 a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  u32 below(u32 n) { return n <= 1 ? 0 : u32((next() >> 11) % n); }
  bool p(u32 num, u32 den) { return below(den) < num; }
};

enum Strat : u32 { kRandom, kPct, kFew, kStallOne, kSticky, kStrats };

struct Probe {
  const char* name;
  u64 n;
};

struct G {
  // configuration
  const Workload* wl = nullptr;
  bool active = false;
  bool trace = false;
  bool replay = false;
  bool pcs = false;
  Record* rec = nullptr;
  const Record* in = nullptr;
  u64 seed = 0;
  // per-run
  int nf = 0;
  int cur = -1;
  void* main_sp = nullptr;
  char main_tls[512];
  Fiber f[kMaxF];
  u64 step = 0;
  u64 now = 0;
  u64 tick = 0;
  u64 hash = 0;
  u64 chash = 0;
  u32 ngen = 0;
  u32 nchoose = 0;
  u32 dev_pos = 0;
  u64 switches = 0;
  bool fair = false;
  Rng rgen, rsch;
  // strategy
  Strat strat = kRandom;
  u32 pre_num = 1, pre_den = 4;
  u64 cps[8];
  u32 ncps = 0;
  u32 prio_low = 0;
  int victim = -1;
  u64 victim_at = 0;
  u32 p_weak = 0, p_spur = 0, p_jump = 0, p_stale = 0, p_order = 0, p_reuse = 0;
  bool g_reuse = false;
  bool g_stale = false;
  u8 fill = 0xCD;
  u64 faults[kFaultKinds];
  u64 run_faults[kFaultKinds];
  // sync objects
  Loc* locs = nullptr;
  u32 nlocs = 1;
  static constexpr u32 kMaxLocs = 12000;
  Mutex mx[512];
  u32 nmx = 0;
  Cond cv[256];
  u32 ncv = 0;
  VC sc;  // seq_cst fence visibility
  // heap
  u32 heap_used = 0;
  Block* blk = nullptr;
  u32 nblk = 0;
  static constexpr u32 kMaxBlk = 60000;
  u64 live = 0;
  u64 alloc_seq = 0;
  u32 freelist[64];
  u32 nfreelist = 0;
  // shadow
  Cell* cells = nullptr;       // region + globals
  u8* st = nullptr;            // per byte of region: 0 dead, 1 live, 2 freed
  u32* loc_at = nullptr;       // per 4 bytes
  u32* blk_at = nullptr;       // per 16 bytes of heap
  std::uint32_t* pcw = nullptr;
  std::uint32_t* pcr = nullptr;
  std::uintptr_t glo = 0, ghi = 0;
  std::uintptr_t gt_lo = 0, gt_hi = 0;  // touched globals
  char* gsnap = nullptr;
  // tls
  char* tls_img = nullptr;
  std::size_t tls_file = 0, tls_mem = 0, tls_off = 0;
  // stats
  Stats stats;
  Probe probes[256];
  u32 nprobes = 0;
  u32 nkeys = 0;
};

G* g;

// -------------------------------------------------------------------------------------------------
Fiber& C() { return g->f[g->cur]; }

[[noreturn]] void die(const char* what) {
  std::fprintf(stderr, "simrt: internal error: %s\n", what);
  std::fflush(stderr);
  _exit(3);
}

inline void join(VC& a, const VC& b, int n) {
  for (int i = 0; i < n; ++i) {
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
  }
}
inline bool leq(const VC& a, const VC& b, int n) {
  for (int i = 0; i < n; ++i) {
    if (a.c[i] > b.c[i]) return false;
  }
  return true;
}
inline u32 ep(int tid, u32 clk) { return (u32(tid) << 26) | (clk & ((1u << 26) - 1)); }
inline int etid(u32 e) { return int(e >> 26); }
inline u32 eclk(u32 e) { return e & ((1u << 26) - 1); }

inline void mixh(u64 v) {
  u64 h = g->hash ^ v;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  g->hash = h;
}

void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::vfprintf(stdout, fmt, ap);
  va_end(ap);
}

void write_record(Cls cls, const char* key, const char* msg) {
  Record& r = *g->rec;
  r.failed = 1;
  r.cls = cls;
  std::snprintf(r.key, sizeof r.key, "%s", key);
  std::snprintf(r.msg, sizeof r.msg, "%s", msg);
  r.hash = g->hash;
  r.steps = g->step;
  r.now = g->now;
  r.seed = g->seed;
  r.fibers = g->nf;
  r.switches = g->switches;
}

const char* clsname(Cls c) {
  switch (c) {
    case kOracle: return "oracle";
    case kHang: return "hang";
    case kProgress: return "no-progress";
    case kRace: return "race";
    case kUaf: return "use-after-free";
    case kFree: return "bad-free";
    case kLeak: return "leak";
    case kCrash: return "crash";
  }
  return "?";
}

// returns only if the class does not count for this workload
void violation(Cls cls, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void vviolation(Cls cls, const char* key, const char* fmt, va_list ap) {
  if (!(g->wl->mask & cls)) return;
  char msg[1024];
  int n = std::snprintf(msg, sizeof msg, "[%s] step %llu t=%lluns thread %d: ", clsname(cls), (unsigned long long)g->step,
                        (unsigned long long)g->now, g->cur);
  std::vsnprintf(msg + n, sizeof msg - n, fmt, ap);
  write_record(cls, key, msg);
  if (g->trace) {
    tracef("VIOL %s key=%s %s\n", clsname(cls), key, msg);
  }
  std::fflush(stdout);
  g->active = false;
  record_exit();
}
void violation(Cls cls, const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolation(cls, key, fmt, ap);
  va_end(ap);
}

// -------------------------------------------------------------------------------------------------
// choices
u32 gen_raw(u32 n) {
  u32 v;
  Record& r = *g->rec;
  if (g->in != nullptr && g->in->gen_fixed) {
    v = g->ngen < g->in->ngen ? g->in->gen[g->ngen] : 0;
    if (n == 0) n = 1;
    v %= n;
  } else {
    v = g->rgen.below(n);
  }
  if (g->ngen < kMaxGen) {
    r.gen[g->ngen] = v;
    r.ngen = g->ngen + 1;
  } else {
    r.overflow = 1;
  }
  ++g->ngen;
  return v;
}

// a schedule choice: `v` is what the strategy proposes, the replay file overrides
u32 sched_choice(u32 n, u32 v) {
  const u32 k = g->nchoose++;
  if (g->in != nullptr && g->in->sched_fixed) {
    v = 0;
    while (g->dev_pos < g->in->ndev && g->in->dev[g->dev_pos].k < k) ++g->dev_pos;
    if (g->dev_pos < g->in->ndev && g->in->dev[g->dev_pos].k == k) {
      v = g->in->dev[g->dev_pos].v;
      ++g->dev_pos;
      v %= n;
    }
  }
  if (v != 0) {
    Record& r = *g->rec;
    if (r.ndev < kMaxDev) {
      r.dev[r.ndev].k = k;
      r.dev[r.ndev].v = v;
      ++r.ndev;
    } else {
      r.overflow = 1;
    }
  }
  return v;
}

bool fault_choice(u32 num, u32 den, Fault kind) {
  // true with probability num/den; never in fair mode
  u32 v = 0;
  if (!g->fair && num != 0) v = g->rsch.below(den) < num;
  v = sched_choice(2, v);
  if (v) {
    ++g->run_faults[kind];
    if (g->trace) tracef("F %llu %d fault %s\n", (unsigned long long)g->step, g->cur, kFaultNames[kind]);
    mixh(0xF000 + kind);
  }
  return v != 0;
}

// -------------------------------------------------------------------------------------------------
// context switch
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

char* tls_ptr() {
  char* tp;
  asm("movq %%fs:0, %0" : "=r"(tp));
  return tp - g->tls_off;
}

void switch_to(int to) {
  const int from = g->cur;
  if (from == to) return;
  ++g->switches;
  Fiber& t = g->f[to];
  char* tls = tls_ptr();
  std::memcpy(g->f[from].tls, tls, g->tls_mem);
  std::memcpy(tls, t.tls, g->tls_mem);
  g->cur = to;
  sim_switch(&g->f[from].sp, t.sp);
}

void describe_blocked(char* buf, std::size_t n) {
  std::size_t p = 0;
  buf[0] = 0;
  for (int i = 0; i < g->nf && p + 40 < n; ++i) {
    const Fiber& f = g->f[i];
    if (f.st == kBlocked) p += std::snprintf(buf + p, n - p, " T%d:%s", i, kWhy[f.why]);
  }
}

void expire_timers() {
  for (int i = 0; i < g->nf; ++i) {
    Fiber& f = g->f[i];
    if (f.st == kBlocked && f.timed && f.deadline <= g->now) {
      f.st = kRun;
      f.timed_out = true;
      f.timed = false;
      if (f.why != wSleep) ++g->run_faults[kTimeout];
    }
  }
}

// earliest deadline among blocked, 0 if none
bool earliest(u64& d) {
  bool any = false;
  for (int i = 0; i < g->nf; ++i) {
    const Fiber& f = g->f[i];
    if (f.st == kBlocked && f.timed && (!any || f.deadline < d)) {
      d = f.deadline;
      any = true;
    }
  }
  return any;
}

u32 strat_pick(const int* opt, u32 n, bool cont) {
  // opt[0] is the default. cont: opt[0] is the current thread and may simply go on
  Rng& r = g->rsch;
  switch (g->strat) {
    case kPct: {
      if (cont) {
        for (u32 i = 0; i < g->ncps; ++i) {
          if (g->cps[i] == g->step) C().prio = --g->prio_low;
        }
      }
      u32 best = 0;
      for (u32 i = 1; i < n; ++i) {
        if (g->f[opt[i]].prio > g->f[opt[best]].prio) best = i;
      }
      return best;
    }
    case kFew: {
      if (!cont) return r.below(n);
      for (u32 i = 0; i < g->ncps; ++i) {
        if (g->cps[i] == g->step) return r.below(n);
      }
      return 0;
    }
    case kStallOne: {
      u32 good[kMaxF];
      u32 m = 0;
      const bool on = g->step >= g->victim_at;
      for (u32 i = 0; i < n; ++i) {
        if (!(on && opt[i] == g->victim)) good[m++] = i;
      }
      if (m == 0) return 0;
      if (m < n) ++g->run_faults[kStall];
      if (cont && good[0] == 0 && !r.p(g->pre_num, g->pre_den)) return 0;
      return good[r.below(m)];
    }
    case kSticky:
    case kRandom:
    default:
      if (!cont) return r.below(n);
      return r.p(g->pre_num, g->pre_den) ? r.below(n) : 0;
  }
}

void fiber_done_all();

// Pick who runs next. can_continue: the current fiber is runnable. yield: prefer others by default.
void schedule(bool can_continue, bool yielding) {
  int opt[kMaxF];
  for (;;) {
    u32 n = 0;
    const int c = g->cur;
    if (can_continue && !yielding) opt[n++] = c;
    for (int d = 1; d < g->nf; ++d) {
      const int i = (c + d) % g->nf;
      if (g->f[i].st == kRun) opt[n++] = i;
    }
    if (can_continue && yielding) opt[n++] = c;
    if (n == 0) {
      u64 d = 0;
      if (earliest(d)) {
        if (d > g->now) g->now = d;
        expire_timers();
        if (C().st == kRun && !can_continue) {
          // the blocked current fiber itself timed out
          bool others = false;
          for (int i = 0; i < g->nf; ++i) others |= (i != c && g->f[i].st == kRun);
          if (!others) return;
          can_continue = true;
        }
        continue;
      }
      bool all = true;
      for (int i = 0; i < g->nf; ++i) all &= g->f[i].st == kDone;
      if (all) {
        fiber_done_all();
      }
      char b[600];
      describe_blocked(b, sizeof b);
      g->wl->mask& kHang ? void() : die("hang masked");
      violation(kHang, "hang", "deadlock: nothing can run;%s", b);
      die("hang returned");
    }
    u32 v = 0;
    if (g->fair) {
      // round robin
      v = 0;
      if (can_continue && !yielding && n > 1) v = 1;
    } else if (n > 1) {
      const bool cont = can_continue && !yielding;
      v = sched_choice(n, strat_pick(opt, n, cont));
      if (v) ++g->run_faults[cont ? kPreempt : kPick];
    }
    const int to = opt[v];
    if (to != c) {
      mixh(0xA000 + to);
      if (g->trace) tracef("S %llu %d -> %d\n", (unsigned long long)g->step, c, to);
    }
    switch_to(to);
    return;
  }
}

enum Op : u8 { oLoad, oStore, oRmw, oCas, oFence, oLock, oTry, oUnlock, oWait, oSignal, oSpawn, oJoin, oYield, oSleep, oHarness, oExit, oGuard };
const char* const kOps[] = {"load", "store", "rmw", "cas", "fence", "lock", "trylock", "unlock", "wait", "signal", "spawn", "join", "yield", "sleep", "harness", "exit", "guard"};

inline bool on() { return g != nullptr && g->active && g->f[g->cur].host == 0; }

void point(Op op, std::uintptr_t pc, bool yielding = false) {
  ++g->step;
  g->now += g->tick;
  mixh((u64(op) << 56) ^ (u64(g->cur) << 48) ^ pc);
  if (g->trace) tracef("P %llu %d %s pc=%lx\n", (unsigned long long)g->step, g->cur, kOps[op], (unsigned long)pc);
  if (g->step > g->wl->max_steps) {
    if (!g->fair) {
      g->fair = true;
      mixh(0xFA1);
      if (g->trace) tracef("FAIR %llu\n", (unsigned long long)g->step);
    } else if (g->step > 3ull * g->wl->max_steps) {
      char b[600];
      describe_blocked(b, sizeof b);
      violation(kProgress, "no-progress", "step limit under fair scheduling; blocked:%s", b);
      die("progress masked");
    }
  }
  if (g->nf > 1) {
    u64 d;
    if (earliest(d)) {
      if (d <= g->now) {
        expire_timers();
      } else if (fault_choice(g->p_jump, 1000, kTimeJump)) {
        g->now = d;
        expire_timers();
      }
    }
    // spurious wake-ups of condition variables
    for (int i = 0; i < g->nf; ++i) {
      Fiber& f = g->f[i];
      if (f.st == kBlocked && f.why == wCond && fault_choice(g->p_spur, 2000, kSpuriousCv)) {
        f.st = kRun;
        break;
      }
    }
    schedule(true, yielding);
  }
}

// block the current fiber; returns true if it timed out
bool block(Why why, std::uintptr_t obj, bool timed, u64 deadline) {
  Fiber& c = C();
  c.st = kBlocked;
  c.why = why;
  c.wait_on = obj;
  c.timed = timed;
  c.deadline = deadline;
  c.timed_out = false;
  ++c.blocks;
  schedule(false, false);
  c.st = kRun;
  c.why = wNone;
  c.timed = false;
  const bool r = c.timed_out;
  c.timed_out = false;
  return r;
}

void wake(Why why, std::uintptr_t obj) {
  for (int i = 0; i < g->nf; ++i) {
    Fiber& f = g->f[i];
    if (f.st == kBlocked && f.why == why && f.wait_on == obj) f.st = kRun;
  }
}

inline void tick_clk() {
  Fiber& c = C();
  ++c.vc.c[c.id];
}

// -------------------------------------------------------------------------------------------------
// shadow memory
inline bool in_region(std::uintptr_t a) { return a - kBase < kRegion; }
inline bool in_globals(std::uintptr_t a) { return a - g->glo < g->ghi - g->glo; }
// linear shadow index or -1
inline std::ptrdiff_t lin(std::uintptr_t a) {
  if (in_region(a)) return std::ptrdiff_t(a - kBase);
  if (in_globals(a)) return std::ptrdiff_t(kRegion + (a - g->glo));
  return -1;
}
constexpr std::uintptr_t kHeapBase = kBase + kStacksSize;

void where(std::uintptr_t a, char* b, std::size_t n) {
  if (a - kHeapBase < kHeap) {
    const u32 off = u32(a - kHeapBase);
    for (u32 i = g->nblk; i-- > 0;) {
      const Block& bl = g->blk[i];
      if (off >= bl.off && off < bl.off + bl.size) {
        std::snprintf(b, n, "heap block #%llu size %u +%u (allocated by T%d pc=%lx)", (unsigned long long)bl.seq, bl.size,
                      off - bl.off, bl.tid, (unsigned long)bl.pc);
        return;
      }
    }
    std::snprintf(b, n, "heap redzone");
  } else if (in_region(a)) {
    std::snprintf(b, n, "stack of T%d", int((a - kBase) / kStack));
  } else {
    std::snprintf(b, n, "global %lx", (unsigned long)a);
  }
}

void race(const char* kind, std::uintptr_t a, std::uintptr_t pc, int other, std::ptrdiff_t l) {
  if (!(g->wl->mask & kRace)) return;
  char b[200];
  where(a, b, sizeof b);
  violation(kRace, kind, "%s: T%d at pc=%lx is unordered with an earlier access of T%d (pcw=%lx pcr=%lx) to %s", kind, g->cur,
            (unsigned long)pc, other, (unsigned long)(g->pcs && l >= 0 ? g->pcw[l] : 0),
            (unsigned long)(g->pcs && l >= 0 ? g->pcr[l] : 0), b);
}

inline void touch_note(std::uintptr_t a) {
  if (in_globals(a)) {
    if (a < g->gt_lo) g->gt_lo = a;
    if (a + 64 > g->gt_hi) g->gt_hi = a + 64;
  } else if (a < kHeapBase) {
    Fiber& f = g->f[(a - kBase) / kStack];
    if ((char*)a < f.low_touched) f.low_touched = (char*)a;
  }
}

// memory liveness; a is in region
inline bool alive_check(std::uintptr_t a, std::size_t n, std::uintptr_t pc, const char* what) {
  if (a - kHeapBase < kHeap) {
    const u8* s = g->st + (a - kBase);
    if (s[0] != 1 || s[n - 1] != 1) {
      char b[200];
      where(a, b, sizeof b);
      const bool freed = s[0] == 2 || s[n - 1] == 2;
      violation(kUaf, freed ? "use-after-free" : "out-of-bounds", "%s of %zu bytes by T%d at pc=%lx in %s memory: %s", what, n,
                g->cur, (unsigned long)pc, freed ? "freed" : "unallocated", b);
      return false;
    }
  } else if (in_region(a)) {
    const int o = int((a - kBase) / kStack);
    if (o != g->cur) {
      const Fiber& f = g->f[o];
      if (o >= g->nf || f.st == kDone || (char*)a < (char*)f.sp) {
        violation(kUaf, "use-after-return", "%s of %zu bytes by T%d at pc=%lx in the dead stack of T%d", what, n, g->cur,
                  (unsigned long)pc, o);
        return false;
      }
    }
  }
  return true;
}

void access_slow(std::uintptr_t a, std::size_t n, bool w, std::uintptr_t pc, std::ptrdiff_t l) {
  Fiber& c = C();
  const u32 me = ep(c.id, c.vc.c[c.id]);
  touch_note(a);
  Cell* cell = g->cells + l;
  for (std::size_t i = 0; i < n; ++i, ++cell) {
    if (cell->w != 0 && eclk(cell->w) > c.vc.c[etid(cell->w)]) {
      race(w ? "write-write race" : "read-after-write race", a + i, pc, etid(cell->w), l + i);
      cell->w = 0;
    }
    if (w) {
      for (u32 k = 0; k < 3; ++k) {
        const u32 r = cell->r[k];
        if (r != 0 && eclk(r) > c.vc.c[etid(r)]) {
          race("write-after-read race", a + i, pc, etid(r), l + i);
        }
        cell->r[k] = 0;
      }
      cell->w = me;
      if (g->pcs) g->pcw[l + i] = u32(pc);
    } else {
      u32 slot = 3;
      for (u32 k = 0; k < 3; ++k) {
        const u32 r = cell->r[k];
        if (r == 0 || etid(r) == c.id || eclk(r) <= c.vc.c[etid(r)]) {
          slot = k;
          break;
        }
      }
      if (slot == 3) slot = u32(g->step % 3);
      cell->r[slot] = me;
      if (g->pcs) g->pcr[l + i] = u32(pc);
    }
  }
  // atomics living here
  for (std::ptrdiff_t q = l >> 2; q <= std::ptrdiff_t((l + n - 1) >> 2); ++q) {
    const u32 li = g->loc_at[q];
    if (li == 0) continue;
    Loc& lo = g->locs[li];
    if (lo.addr < a || lo.addr >= a + n) continue;
    if (w) {
      if (!leq(lo.acc, c.vc, g->nf)) {
        int o = 0;
        for (int i = 0; i < g->nf; ++i) {
          if (lo.acc.c[i] > c.vc.c[i]) o = i;
        }
        race("write-after-atomic race", a, pc, o, l);
      }
      g->loc_at[q] = 0;  // new object: fresh synchronisation state
    } else if (!leq(lo.accw, c.vc, g->nf)) {
      int o = 0;
      for (int i = 0; i < g->nf; ++i) {
        if (lo.accw.c[i] > c.vc.c[i]) o = i;
      }
      race("read-after-atomic-write race", a, pc, o, l);
    }
  }
}

inline void access(const volatile void* p, std::size_t n, bool w, std::uintptr_t pc) {
  if (!on()) return;
  const std::uintptr_t a = (std::uintptr_t)p;
  const std::ptrdiff_t l = lin(a);
  if (l < 0 || n == 0) return;
  if (!alive_check(a, n, pc, w ? "write" : "read")) return;
  access_slow(a, n, w, pc, l);
}

Loc& loc(std::uintptr_t a, std::ptrdiff_t l) {
  u32& i = g->loc_at[l >> 2];
  if (i == 0 || g->locs[i].addr != a) {
    if (g->nlocs >= G::kMaxLocs) die("too many atomic locations");
    i = g->nlocs++;
    Loc& n = g->locs[i];
    std::memset(&n, 0, offsetof(Loc, h));
    n.addr = a;
    touch_note(a);
  }
  return g->locs[i];
}

// common part of atomic accesses: checks against plain accesses; returns location or null
Loc* atomic_access(const volatile void* p, std::size_t n, bool w, std::uintptr_t pc) {
  const std::uintptr_t a = (std::uintptr_t)p;
  const std::ptrdiff_t l = lin(a);
  if (l < 0) return nullptr;
  if (!alive_check(a, n, pc, "atomic access")) return nullptr;
  Fiber& c = C();
  Cell* cell = g->cells + l;
  for (std::size_t i = 0; i < n; ++i) {
    const u32 cw = cell[i].w;
    if (cw != 0 && eclk(cw) > c.vc.c[etid(cw)]) {
      race("atomic-after-write race", a + i, pc, etid(cw), l + i);
      cell[i].w = 0;
    }
    if (w) {
      for (u32 k = 0; k < 3; ++k) {
        const u32 r = cell[i].r[k];
        if (r != 0 && eclk(r) > c.vc.c[etid(r)]) {
          race("atomic-write-after-read race", a + i, pc, etid(r), l + i);
          cell[i].r[k] = 0;
        }
      }
    }
  }
  if (g->pcs) (w ? g->pcw : g->pcr)[l] = u32(pc);
  Loc& lo = loc(a, l);
  const u32 ck = c.vc.c[c.id];
  lo.acc.c[c.id] = ck;
  if (w) lo.accw.c[c.id] = ck;
  return &lo;
}

inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void do_acquire(const VC& s, int mo) {
  Fiber& c = C();
  if (is_acq(mo)) {
    join(c.vc, s, g->nf);
    join(c.vis, s, g->nf);
  } else {
    join(c.acq, s, g->nf);
  }
}

void push_store(Loc& lo, u64 val, std::size_t size) {
  Fiber& c = C();
  Store& s = lo.h[lo.n % kHist];
  s.val = val;
  s.size = u8(size);
  s.tid = u8(c.id);
  s.clk = c.vc.c[c.id];
  s.step = g->step;
  s.sync = lo.sync;
  lo.seen[c.id] = lo.n;
  lo.seenclk[c.id] = s.clk;
  ++lo.n;
}

// release side of a store / rmw; rmw keeps the release sequence
void do_release(Loc& lo, int mo, bool rmw) {
  Fiber& c = C();
  if (!rmw) std::memset(&lo.sync, 0, sizeof(VC));
  if (is_rel(mo)) {
    join(lo.sync, c.vc, g->nf);
  } else if (c.has_rel) {
    join(lo.sync, c.rel, g->nf);
  }
}

u64 rd(const volatile void* p, std::size_t n) {
  switch (n) {
    case 1: return *(const volatile u8*)p;
    case 2: return *(const volatile std::uint16_t*)p;
    case 4: return *(const volatile u32*)p;
    default: return *(const volatile u64*)p;
  }
}
void wr(volatile void* p, std::size_t n, u64 v) {
  switch (n) {
    case 1: *(volatile u8*)p = u8(v); break;
    case 2: *(volatile std::uint16_t*)p = std::uint16_t(v); break;
    case 4: *(volatile u32*)p = u32(v); break;
    default: *(volatile u64*)p = v; break;
  }
}

u64 a_load(const volatile void* p, std::size_t n, int mo, std::uintptr_t pc) {
  if (!on()) return rd(p, n);
  point(oLoad, pc);
  Loc* lo = atomic_access(p, n, false, pc);
  u64 v = rd(p, n);
  if (lo == nullptr) return v;
  Fiber& c = C();
  if (lo->n == 0) {
    // initial value written by plain stores
    Store& s = lo->h[0];
    s.val = v;
    s.size = u8(n);
    s.tid = u8(c.id);
    s.clk = 0;
    s.step = g->step;
    std::memset(&s.sync, 0, sizeof(VC));
    lo->n = 1;
  }
  const VC* sync = &lo->sync;
  u32 idx = lo->n - 1;
  if (g->g_stale && mo != __ATOMIC_SEQ_CST && lo->n >= 2 && g->nf > 1) {
    u32 low = lo->seen[c.id];
    const u32 first = lo->n > kHist ? lo->n - kHist : 0;
    if (low < first) low = first;
    for (int t = 0; t < g->nf; ++t) {
      if (lo->seenclk[t] != 0 && (lo->seenclk[t] <= c.vc.c[t] || lo->seenclk[t] <= c.vis.c[t]) && lo->seen[t] > low) low = lo->seen[t];
    }
    for (u32 i = lo->n - 1; i > low; --i) {
      const Store& s = lo->h[i % kHist];
      if (s.clk <= c.vc.c[s.tid] || s.clk <= c.vis.c[s.tid] || s.size != n || g->step - s.step > 300) {
        low = i;
        break;
      }
    }
    if (low < lo->n - 1 && lo->h[low % kHist].size == n) {
      u32 span = lo->n - 1 - low;
      if (fault_choice(g->p_stale, 100, kStaleLoad)) {
        u32 back = 1 + sched_choice(span, g->rsch.below(span));
        idx = lo->n - 1 - back;
        v = lo->h[idx % kHist].val;
        sync = &lo->h[idx % kHist].sync;
      }
    }
  }
  lo->seen[c.id] = idx;
  lo->seenclk[c.id] = c.vc.c[c.id];
  do_acquire(*sync, mo);
  mixh(idx);
  return v;
}

void ensure_base(Loc& lo, const volatile void* p, std::size_t n) {
  if (lo.n == 0) {
    Store& s = lo.h[0];
    s.val = rd(p, n);
    s.size = u8(n);
    s.tid = u8(g->cur);
    s.clk = 0;
    s.step = g->step;
    std::memset(&s.sync, 0, sizeof(VC));
    lo.n = 1;
  }
}

void a_store(volatile void* p, std::size_t n, u64 v, int mo, std::uintptr_t pc) {
  if (!on()) {
    wr(p, n, v);
    return;
  }
  point(oStore, pc);
  Loc* lo = atomic_access(p, n, true, pc);
  if (lo != nullptr) {
    ensure_base(*lo, p, n);
    do_release(*lo, mo, false);
    push_store(*lo, v, n);
  }
  wr(p, n, v);
  if (is_rel(mo)) tick_clk();
  if (mo == __ATOMIC_SEQ_CST && false) {
  }
}

enum RmwOp { rXchg, rAdd, rSub, rAnd, rOr, rXor, rNand };
u64 rmw_apply(RmwOp op, u64 o, u64 v) {
  switch (op) {
    case rXchg: return v;
    case rAdd: return o + v;
    case rSub: return o - v;
    case rAnd: return o & v;
    case rOr: return o | v;
    case rXor: return o ^ v;
    case rNand: return ~(o & v);
  }
  return 0;
}

u64 a_rmw(volatile void* p, std::size_t n, RmwOp op, u64 v, int mo, std::uintptr_t pc) {
  if (!on()) {
    const u64 o = rd(p, n);
    wr(p, n, rmw_apply(op, o, v));
    return o;
  }
  point(oRmw, pc);
  Loc* lo = atomic_access(p, n, true, pc);
  const u64 o = rd(p, n);
  const u64 nv = rmw_apply(op, o, v);
  if (lo != nullptr) {
    ensure_base(*lo, p, n);
    do_acquire(lo->sync, mo);
    do_release(*lo, mo, true);
    push_store(*lo, nv, n);
  }
  wr(p, n, nv);
  if (is_rel(mo)) tick_clk();
  return o;
}

bool a_cas(volatile void* p, std::size_t n, void* exp, u64 des, int mo, int fmo, bool weak, std::uintptr_t pc) {
  if (!on()) {
    const u64 o = rd(p, n);
    if (o == rd(exp, n)) {
      wr(p, n, des);
      return true;
    }
    wr(exp, n, o);
    return false;
  }
  point(oCas, pc);
  Loc* lo = atomic_access(p, n, true, pc);
  const u64 o = rd(p, n);
  bool ok = o == rd(exp, n);
  if (ok && weak && fault_choice(g->p_weak, 100, kWeakCas)) ok = false;
  mixh(0xCA5 + ok);
  if (lo != nullptr) {
    ensure_base(*lo, p, n);
    if (ok) {
      do_acquire(lo->sync, mo);
      do_release(*lo, mo, true);
      push_store(*lo, des, n);
    } else {
      do_acquire(lo->sync, fmo);
      lo->seen[g->cur] = lo->n - 1;
      lo->seenclk[g->cur] = C().vc.c[g->cur];
    }
  }
  if (ok) {
    wr(p, n, des);
    if (is_rel(mo)) tick_clk();
    return true;
  }
  wr(exp, n, o);
  return false;
}

void a_fence(int mo, std::uintptr_t pc) {
  if (!on()) return;
  point(oFence, pc);
  Fiber& c = C();
  if (is_acq(mo)) {
    join(c.vc, c.acq, g->nf);
    join(c.vis, c.acq, g->nf);
  }
  if (mo == __ATOMIC_SEQ_CST) {
    join(c.vis, g->sc, g->nf);
    join(g->sc, c.vc, g->nf);
  }
  if (is_rel(mo)) {
    c.rel = c.vc;
    c.has_rel = true;
    tick_clk();
  }
}

// -------------------------------------------------------------------------------------------------
// heap
void* arena_alloc(std::size_t size, std::size_t align, std::uintptr_t pc) {
  Fiber& c = C();
  if (c.alloc_fail != 0 && --c.alloc_fail == 0) {
    c.alloc_failed = true;
    count(kUser3);
    throw std::bad_alloc{};
  }
  ++c.allocs;
  ++g->alloc_seq;
  if (size == 0) size = 1;
  u32 off = ~0u;
  if (g->g_reuse && g->nfreelist != 0) {
    // candidates: freed blocks of the same rounded size
    u32 cand[64];
    u32 n = 0;
    for (u32 i = g->nfreelist; i-- > 0;) {
      const Block& b = g->blk[g->freelist[i]];
      if (((b.size + 15) & ~15u) == ((size + 15) & ~15u) && (b.off % align) == 0) cand[n++] = i;
    }
    if (n != 0 && fault_choice(g->p_reuse, 100, kReuse)) {
      const u32 k = cand[0];
      const u32 b = g->freelist[k];
      off = g->blk[b].off;
      for (u32 i = k; i + 1 < g->nfreelist; ++i) g->freelist[i] = g->freelist[i + 1];
      --g->nfreelist;
    }
  }
  if (off == ~0u) {
    u32 a = u32(align < 16 ? 16 : align);
    off = (g->heap_used + 16 + a - 1) & ~(a - 1);
    if (off + size + 64 > kHeap) die("arena exhausted");
    g->heap_used = u32(off + size + 16);
  }
  if (g->nblk >= G::kMaxBlk) die("too many blocks");
  Block& b = g->blk[g->nblk];
  b.off = off;
  b.size = u32(size);
  b.live = true;
  b.tid = g->cur;
  b.pc = pc;
  b.seq = g->alloc_seq;
  b.step = g->step;
  g->blk_at[off >> 4] = g->nblk + 1;
  ++g->nblk;
  ++g->live;
  char* p = (char*)(kHeapBase + off);
  std::memset(p, g->fill, size);
  std::memset(g->st + kStacksSize + off, 1, size);
  std::memset(g->cells + kStacksSize + off, 0, size * sizeof(Cell));
  for (std::size_t q = (kStacksSize + off) >> 2; q <= (kStacksSize + off + size - 1) >> 2; ++q) g->loc_at[q] = 0;
  mixh(0xA110C000 + size);
  if (g->trace) tracef("A %llu %d alloc #%llu size %zu pc=%lx\n", (unsigned long long)g->step, g->cur, (unsigned long long)g->alloc_seq, size, (unsigned long)pc);
  return p;
}

void arena_free(void* p, std::uintptr_t pc) {
  const std::uintptr_t a = (std::uintptr_t)p;
  const u32 off = u32(a - kHeapBase);
  const u32 bi = g->blk_at[off >> 4];
  if (!g->active) return;  // leftovers of an aborted run
  if (bi == 0 || g->blk[bi - 1].off != off) {
    violation(kFree, "invalid-free", "free of a pointer that is not a block at pc=%lx", (unsigned long)pc);
    return;
  }
  Block& b = g->blk[bi - 1];
  if (!b.live) {
    violation(kFree, "double-free", "double free of block #%llu size %u at pc=%lx", (unsigned long long)b.seq, b.size, (unsigned long)pc);
    return;
  }
  mixh(0xF4EE0000 + b.size);
  if (g->trace) tracef("D %llu %d free #%llu size %u pc=%lx\n", (unsigned long long)g->step, g->cur, (unsigned long long)b.seq, b.size, (unsigned long)pc);
  if (on() && (g->wl->mask & kRace)) {
    Fiber& c = C();
    const std::ptrdiff_t l = kStacksSize + off;
    for (u32 i = 0; i < b.size; ++i) {
      const Cell& cell = g->cells[l + i];
      if (cell.w != 0 && eclk(cell.w) > c.vc.c[etid(cell.w)]) race("free-after-write race", a + i, pc, etid(cell.w), l + i);
      for (u32 k = 0; k < 3; ++k) {
        const u32 r = cell.r[k];
        if (r != 0 && eclk(r) > c.vc.c[etid(r)]) race("free-after-read race", a + i, pc, etid(r), l + i);
      }
    }
    for (std::ptrdiff_t q = l >> 2; q <= std::ptrdiff_t((l + b.size - 1) >> 2); ++q) {
      const u32 li = g->loc_at[q];
      if (li == 0) continue;
      Loc& lo = g->locs[li];
      if (!leq(lo.acc, c.vc, g->nf)) {
        int o = 0;
        for (int i = 0; i < g->nf; ++i) {
          if (lo.acc.c[i] > c.vc.c[i]) o = i;
        }
        race("free-after-atomic race", lo.addr, pc, o, q << 2);
      }
    }
  }
  b.live = false;
  --g->live;
  std::memset(g->st + kStacksSize + off, 2, b.size);
  std::memset(p, 0xDD, b.size);
  if (g->g_reuse && g->nfreelist < 64) g->freelist[g->nfreelist++] = bi - 1;
}

// -------------------------------------------------------------------------------------------------
// sync objects
Mutex& mutex_at(const void* p) {
  const std::uintptr_t a = (std::uintptr_t)p;
  for (u32 i = 0; i < g->nmx; ++i) {
    if (g->mx[i].addr == a) return g->mx[i];
  }
  if (g->nmx >= 512) {
    for (u32 i = 0; i < g->nmx; ++i) {  // recycle a free one
      if (g->mx[i].owner == -1 && g->mx[i].readers == 0) {
        g->mx[i].addr = a;
        g->mx[i].count = 0;
        std::memset(&g->mx[i].vc, 0, sizeof(VC));
        return g->mx[i];
      }
    }
    die("too many mutexes");
  }
  Mutex& m = g->mx[g->nmx++];
  std::memset(&m, 0, sizeof m);
  m.addr = a;
  m.owner = -1;
  m.recursive = ((const pthread_mutex_t*)p)->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
  return m;
}
Cond& cond_at(const void* p) {
  const std::uintptr_t a = (std::uintptr_t)p;
  for (u32 i = 0; i < g->ncv; ++i) {
    if (g->cv[i].addr == a) return g->cv[i];
  }
  if (g->ncv >= 256) {
    for (u32 i = 0; i < g->ncv; ++i) {
      if (g->cv[i].n == 0) {
        g->cv[i].addr = a;
        return g->cv[i];
      }
    }
    die("too many condvars");
  }
  Cond& c = g->cv[g->ncv++];
  c.addr = a;
  c.n = 0;
  return c;
}

// treat a library synchronisation object as memory that must be alive, and as an atomic for HB-with-free purposes
void sync_access(const void* p, std::size_t n, std::uintptr_t pc) {
  (void)n;
  atomic_access(p, 4, true, pc);
}

void mutex_lock_impl(const void* p) {
  Mutex* m = &mutex_at(p);
  if (m->recursive && m->owner == g->cur) {
    ++m->count;
    return;
  }
  while (m->owner != -1 || m->readers != 0) {
    if (m->owner == g->cur && !m->recursive) {
      violation(kHang, "self-deadlock", "thread locks a mutex it already holds");
    }
    block(wMutex, (std::uintptr_t)p, false, 0);
    m = &mutex_at(p);
  }
  m->owner = g->cur;
  m->count = 1;
  do_acquire(m->vc, __ATOMIC_ACQUIRE);
}
void mutex_unlock_impl(const void* p) {
  Mutex& m = mutex_at(p);
  if (m.owner != g->cur) {
    violation(kOracle, "unlock-not-owner", "pthread_mutex_unlock by a thread that does not hold it");
    return;
  }
  if (--m.count > 0) return;
  m.owner = -1;
  m.vc = C().vc;
  tick_clk();
  wake(wMutex, (std::uintptr_t)p);
}

int cond_wait_impl(pthread_cond_t* cv, pthread_mutex_t* mx, bool timed, u64 deadline, std::uintptr_t pc) {
  point(oWait, pc);
  sync_access(cv, sizeof *cv, pc);
  {
    Cond& c = cond_at(cv);
    c.q[c.n++] = g->cur;
  }
  mutex_unlock_impl(mx);
  bool to = false;
  if (timed && deadline <= g->now) {
    to = true;
    ++g->run_faults[kTimeout];
    schedule(true, false);
  } else {
    to = block(wCond, (std::uintptr_t)cv, timed, deadline);
  }
  // remove self from the queue if still there
  Cond& c = cond_at(cv);
  bool queued = false;
  for (int i = 0; i < c.n; ++i) {
    if (c.q[i] == g->cur) {
      for (int k = i; k + 1 < c.n; ++k) c.q[k] = c.q[k + 1];
      --c.n;
      queued = true;
      break;
    }
  }
  (void)queued;
  mutex_lock_impl(mx);
  return to ? ETIMEDOUT : 0;
}

void cond_signal_impl(pthread_cond_t* cv, bool all, std::uintptr_t pc) {
  point(oSignal, pc);
  sync_access(cv, sizeof *cv, pc);
  Cond& c = cond_at(cv);
  if (c.n == 0) return;
  if (all) {
    for (int i = 0; i < c.n; ++i) g->f[c.q[i]].st = kRun;
    c.n = 0;
    return;
  }
  u32 k = 0;
  if (c.n > 1) {
    k = sched_choice(u32(c.n), g->fair || !g->rsch.p(g->p_order, 100) ? 0 : g->rsch.below(u32(c.n)));
    if (k) ++g->run_faults[kNotifyOrder];
  }
  const int t = c.q[k];
  for (int i = int(k); i + 1 < c.n; ++i) c.q[i] = c.q[i + 1];
  --c.n;
  g->f[t].st = kRun;
}

u64 ts_ns(const timespec* t) { return u64(t->tv_sec) * 1000000000ull + u64(t->tv_nsec); }

// -------------------------------------------------------------------------------------------------
// fibers
void run_dtors(Fiber& f) {
  while (f.ndtors > 0) {
    auto d = f.dtors[--f.ndtors];
    d.f(d.o);
  }
}

void fiber_done_all() {
  // every fiber finished: back to the driver
  char* tls = tls_ptr();
  std::memcpy(tls, g->main_tls, g->tls_mem);
  void* dummy;
  sim_switch(&dummy, g->main_sp);
  die("resumed a finished run");
}

extern "C" void sim_fiber_entry() {
  Fiber& f = g->f[g->cur];
  f.ret = f.fn(f.arg);
  run_dtors(g->f[g->cur]);
  Fiber& c = C();
  ++g->step;
  mixh(0xE0000000u + g->cur);
  if (g->trace) tracef("P %llu %d exit pc=0\n", (unsigned long long)g->step, g->cur);
  c.st = kDone;
  wake(wJoin, std::uintptr_t(g->cur));
  schedule(false, false);
  die("finished fiber resumed");
}

asm(R"(
.text
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
  xorl %ebp, %ebp
  call sim_fiber_entry
  ud2
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

int new_fiber(void* (*fn)(void*), void* arg) {
  if (g->nf >= kMaxF) die("too many fibers");
  const int id = g->nf++;
  Fiber& f = g->f[id];
  char* lo = (char*)kBase + std::size_t(id) * kStack;
  std::memset(&f, 0, offsetof(Fiber, tls));
  f.ndtors = 0;
  std::memset(f.keys, 0, sizeof f.keys);
  f.id = id;
  f.lo = lo;
  f.hi = lo + kStack;
  f.low_touched = f.hi;
  f.fn = fn;
  f.arg = arg;
  f.st = kRun;
  f.vc.c[id] = 1;
  f.vis.c[id] = 1;
  f.prio = g->replay ? 0 : 1000 + u32(g->rsch.below(1u << 20));
  if (g->tls_file) std::memcpy(f.tls, g->tls_img, g->tls_file);
  std::memset(f.tls + g->tls_file, 0, g->tls_mem - g->tls_file);
  // initial frame
  std::uintptr_t sp = (std::uintptr_t)f.hi - 64;
  sp &= ~std::uintptr_t(15);
  u64* s = (u64*)sp;
  *--s = 0;                 // keeps the call in sim_tramp aligned
  *--s = 0;
  *--s = (u64)&sim_tramp;   // ret
  for (int i = 0; i < 6; ++i) *--s = 0;
  --s;
  u32 csr;
  std::uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(csr));
  asm volatile("fnstcw %0" : "=m"(cw));
  ((u32*)s)[0] = csr;
  ((std::uint16_t*)s)[2] = cw;
  f.sp = s;
  return id;
}

void* body_thunk(void*) {
  g->wl->body();
  return nullptr;
}

}  // namespace

// -------------------------------------------------------------------------------------------------
// public API
static Workload* g_head = nullptr;  // filled during static init, before the snapshot

Workload::Workload(const char* nm, const char* pr, void (*b)(), u32 m, u32 w, u32 ms)
  : name{nm}, property{pr}, body{b}, mask{m}, weight{w}, max_steps{ms}, next{g_head} {
  g_head = this;
}
Workload* workloads() { return g_head; }

bool active() { return g != nullptr && g->active; }
int self() { return g->cur; }
u64 now() { return g->now; }
u64 steps() { return g->step; }
int fiber_count() { return g->nf; }
bool is_blocked(int i) { return g->f[i].st == kBlocked; }
u64 allocs(int i) { return g->f[i < 0 ? g->cur : i].allocs; }
u64 alloc_total() { return g->alloc_seq; }
void fail_alloc(u32 nth) {
  C().alloc_fail = nth;
  C().alloc_failed = false;
}
bool end_fail_alloc() {
  C().alloc_fail = 0;
  return C().alloc_failed;
}
u64 block_ops(int i) { return g->f[i < 0 ? g->cur : i].blocks; }
u64 live_blocks() { return g->live; }
u64 live_mark() { return g->alloc_seq; }
u64 rnd_seed() { return g->seed; }

u32 gen(u32 n) { return gen_raw(n); }
bool genp(u32 num, u32 den) {
  // keep 0 the simple outcome: true iff v >= den-num
  return gen_raw(den) >= den - num;
}
bool knob(u32 num, u32 den) { return genp(num, den); }
u32 choose(u32 n, Fault kind) {
  if (n <= 1) return 0;
  u32 v = sched_choice(n, g->fair ? 0 : g->rsch.below(n));
  if (v) {
    ++g->run_faults[kind];
    mixh(0xC000 + v);
  }
  return v;
}
bool flip(u32 num, u32 den, Fault kind) { return fault_choice(num, den, kind); }
void count(Fault kind) {
  ++g->run_faults[kind];
  if (g->trace) tracef("F %llu %d fault %s\n", (unsigned long long)g->step, g->cur, kFaultNames[kind]);
}

void fail(Cls cls, const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vviolation(cls, key, fmt, ap);
  va_end(ap);
  die("fail() of a masked class");
}
void log(const char* fmt, ...) {
  if (!g->trace) return;
  char b[500];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  tracef("L %llu %d %s\n", (unsigned long long)g->step, g->cur, b);
}
void ev(u32 a, u64 b, u64 c) {
  mixh((u64(a) << 32) + b * 31 + c * 0x10001 + u64(g->cur));
  if (g->trace) tracef("E %llu %d ev %u %llu %llu\n", (unsigned long long)g->step, g->cur, a, (unsigned long long)b, (unsigned long long)c);
}
void probe(const char* name) {
  for (u32 i = 0; i < g->nprobes; ++i) {
    if (g->probes[i].name == name) {
      ++g->probes[i].n;
      return;
    }
  }
  if (g->nprobes < 256) g->probes[g->nprobes++] = {name, 1};
}
void yield() {
  if (on()) point(oYield, 0, true);
}

HostScope::HostScope() noexcept {
  if (g->active) ++C().host;
}
HostScope::~HostScope() {
  if (g->active) --C().host;
}
void forget(void* p, std::size_t n) {
  const std::ptrdiff_t l = lin((std::uintptr_t)p);
  if (l < 0) return;
  std::memset(g->cells + l, 0, n * sizeof(Cell));
}
Stamp stamp() {
  Fiber& c = C();
  Stamp s{c.id, c.vc.c[c.id]};
  // what this thread does after the stamp must be distinguishable
  ++c.vc.c[c.id];
  return s;
}
bool ordered_after(Stamp s) {
  return s.tid == g->cur || (s.tid >= 0 && C().vc.c[s.tid] >= s.clk);
}
void check_leaks_now(const char* key) {
  if (g->live == 0) return;
  for (u32 i = 0; i < g->nblk; ++i) {
    const Block& b = g->blk[i];
    if (b.live) {
      violation(kLeak, key, "%llu block(s) still allocated; first: #%llu size %u allocated by T%d pc=%lx",
                (unsigned long long)g->live, (unsigned long long)b.seq, b.size, b.tid, (unsigned long)b.pc);
      return;
    }
  }
}
__attribute__((noinline)) void scribble_stack() {
  // the region below the current frame
  volatile char buf[2048];
  for (std::size_t i = 0; i < sizeof buf; ++i) buf[i] = char(0xEE);
  asm volatile("" : : "r"(buf) : "memory");
}

// -------------------------------------------------------------------------------------------------
// driver interface (rt.hpp)
void* map(std::size_t n, std::uintptr_t at = 0) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED || (at && p != (void*)at)) die("mmap");
  return p;
}

static int phdr_cb(dl_phdr_info* info, size_t, void*) {
  // first object is the main program
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    const auto& ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_TLS) {
      g->tls_img = (char*)(info->dlpi_addr + ph.p_vaddr);
      g->tls_file = ph.p_filesz;
      g->tls_mem = ph.p_memsz;
      const std::size_t al = ph.p_align ? ph.p_align : 1;
      g->tls_off = (ph.p_memsz + al - 1) / al * al;
    }
  }
  return 1;
}

static void on_signal(int sig) {
  if (g != nullptr && g->active) {
    char k[32];
    std::snprintf(k, sizeof k, "signal %d", sig);
    violation(kCrash, k, "%s", strsignal(sig));
  }
  std::fprintf(stderr, "simrt: signal %d outside a run\n", sig);
  _exit(3);
}

void rt_init(Record* rec) {
  g = (G*)map(sizeof(G));
  new (g) G;
  g->rec = rec;
  g->locs = (Loc*)map(sizeof(Loc) * G::kMaxLocs);
  g->blk = (Block*)map(sizeof(Block) * G::kMaxBlk);
  map(kRegion, kBase);
  g->glo = (std::uintptr_t)__data_start;
  g->ghi = ((std::uintptr_t)_end + 63) & ~std::uintptr_t(63);
  const std::size_t total = kRegion + (g->ghi - g->glo) + 4096;
  g->cells = (Cell*)map(total * sizeof(Cell));
  g->st = (u8*)map(kRegion + 64);
  g->loc_at = (u32*)map((total / 4 + 64) * 4);
  g->blk_at = (u32*)map((kHeap / 16 + 64) * 4);
  g->pcw = (std::uint32_t*)map(total * 4);
  g->pcr = (std::uint32_t*)map(total * 4);
  g->gt_lo = ~std::uintptr_t(0);
  g->gt_hi = 0;
  dl_iterate_phdr(phdr_cb, nullptr);
  if (g->tls_mem > sizeof(Fiber::tls)) die("TLS segment too large");
  static char alt[64 * 1024];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
  const std::size_t gn = std::size_t(_end - __data_start);
  g->gsnap = (char*)map(gn + 64);
  std::memcpy(g->gsnap, __data_start, gn);
}

Stats& rt_stats() { return g->stats; }
const char* rt_cls_name(u32 c) { return clsname(Cls(c)); }
u32 rt_probes(const char** names, u64* counts, u32 max) {
  u32 n = 0;
  for (; n < g->nprobes && n < max; ++n) {
    names[n] = g->probes[n].name;
    counts[n] = g->probes[n].n;
  }
  return n;
}

static void reset_run() {
  // globals of the program under test
  std::memcpy(__data_start, g->gsnap, std::size_t(_end - __data_start));
  // shadow
  if (g->gt_lo < g->gt_hi) {
    const std::size_t a = (g->gt_lo & ~std::uintptr_t(63)) - g->glo, b = std::min<std::uintptr_t>(g->gt_hi + 64, g->ghi) - g->glo;
    std::memset(g->cells + kRegion + a, 0, (b - a) * sizeof(Cell));
    std::memset(g->loc_at + (kRegion + a) / 4, 0, (b - a));
  }
  g->gt_lo = ~std::uintptr_t(0);
  g->gt_hi = 0;
  for (int i = 0; i < g->nf; ++i) {
    Fiber& f = g->f[i];
    if (f.low_touched < f.hi) {
      const std::size_t a = ((std::uintptr_t)f.low_touched & ~std::uintptr_t(63)) - kBase, b = (std::uintptr_t)f.hi - kBase;
      std::memset(g->cells + a, 0, (b - a) * sizeof(Cell));
      std::memset(g->loc_at + a / 4, 0, (b - a));
    }
    // stacks must not leak data from run to run (uninitialised reads must be repeatable)
    char* lo = (char*)std::min((std::uintptr_t)f.low_touched, (std::uintptr_t)f.hi - 16384);
    std::memset(lo, 0, std::size_t(f.hi - lo));
  }
  if (g->heap_used) {
    const std::size_t n = g->heap_used + 64;
    std::memset(g->st + kStacksSize, 0, n);
    std::memset(g->cells + kStacksSize, 0, n * sizeof(Cell));
    std::memset(g->loc_at + kStacksSize / 4, 0, n);
    std::memset(g->blk_at, 0, n / 16 * 4 + 64);
  }
  g->nf = 0;
  g->cur = -1;
  g->step = 0;
  g->now = 1000000000ull;
  g->hash = 0x1234567;
  g->ngen = 0;
  g->nchoose = 0;
  g->dev_pos = 0;
  g->switches = 0;
  g->fair = false;
  g->nlocs = 1;
  g->nmx = 0;
  g->ncv = 0;
  std::memset(&g->sc, 0, sizeof(VC));
  g->heap_used = 0;
  g->nblk = 0;
  g->live = 0;
  g->alloc_seq = 0;
  g->nfreelist = 0;
  std::memset(g->run_faults, 0, sizeof g->run_faults);
}

static u64 hash_str(const char* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ u8(*s)) * 1099511628211ull;
  return h;
}

// One simulated execution. `in` (optional) fixes the generation and/or schedule stream.
u64 rt_run(const Workload* wl, u64 seed, const Record* in, bool trace) {
  reset_run();
  g->wl = wl;
  g->seed = seed;
  g->in = in;
  g->replay = in != nullptr && in->sched_fixed;
  g->trace = trace;
  g->pcs = trace;
  Record& r = *g->rec;
  r.failed = 0;
  r.ngen = 0;
  r.ndev = 0;
  r.overflow = 0;
  std::snprintf(r.workload, sizeof r.workload, "%s", wl->name);
  g->rgen.seed(seed * 2 + 0x51 + hash_str(wl->name));
  g->rsch.seed((in != nullptr && !in->sched_fixed ? in->sched_seed * 7919 : 0) + seed * 2 + 0xACE1 + hash_str(wl->name) * 3);
  // environment (part of the program: generation stream)
  static const u64 ticks[] = {0, 100, 20000, 1000};
  g->tick = ticks[gen_raw(4)];
  g->g_reuse = gen_raw(4) == 3;
  g->g_stale = gen_raw(3) == 2;
  static const u8 fills[] = {0xCD, 0x00, 0xFF, 0x01};
  g->fill = fills[gen_raw(4)];
  if (!(g->wl->mask & kRace)) g->g_stale = false;
  // strategy (not part of the program: only its decisions are recorded)
  Rng& q = g->rsch;
  g->strat = Strat(q.below(kStrats));
  static const u32 dens[] = {2, 3, 4, 8, 16, 32};
  g->pre_num = 1;
  g->pre_den = dens[q.below(6)];
  if (g->strat == kSticky) g->pre_den = 20 + q.below(80);
  static const u32 lens[] = {40, 100, 250, 600};
  const u32 len = lens[q.below(4)];
  g->ncps = g->strat == kFew ? 1 + q.below(4) : q.below(5);
  for (u32 i = 0; i < g->ncps; ++i) g->cps[i] = 1 + q.below(len);
  g->prio_low = 1000;
  g->victim = int(q.below(6));
  g->victim_at = 1 + q.below(len);
  g->p_weak = q.p(1, 2) ? 5 + q.below(30) : 0;
  g->p_spur = q.p(1, 4) ? 5 + q.below(50) : 0;
  g->p_jump = q.p(1, 2) ? 2 + q.below(100) : 0;
  g->p_stale = 5 + q.below(40);
  g->p_order = 30;
  g->p_reuse = 70;
  new_fiber(body_thunk, nullptr);
  char* tls = tls_ptr();
  std::memcpy(g->main_tls, tls, g->tls_mem);
  std::memcpy(tls, g->f[0].tls, g->tls_mem);
  g->cur = 0;
  g->active = true;
  sim_switch(&g->main_sp, g->f[0].sp);
  // quiescent
  g->cur = 0;
  check_leaks_now("leak");
  g->active = false;
  for (u32 i = 0; i < kFaultKinds; ++i) g->stats.faults[i] += g->run_faults[i];
  g->stats.runs++;
  g->stats.steps += g->step;
  g->stats.switches += g->switches;
  g->stats.sim_ns += g->now - 1000000000ull;
  g->stats.fibers += u64(g->nf);
  if (g->fair) g->stats.fair_runs++;
  r.hash = g->hash;
  r.steps = g->step;
  r.seed = seed;
  r.fibers = g->nf;
  r.switches = g->switches;
  return g->hash;
}

}  // namespace sim

// =================================================================================================
// interposed functions
using namespace sim;
#define PC ((std::uintptr_t)__builtin_return_address(0))

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                        \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }          \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }          \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

#define AT(bits, T)                                                                                                      \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return T(a_load(p, sizeof(T), mo, PC)); }                  \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store(p, sizeof(T), u64(v), mo, PC); }                \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rXchg, u64(v), mo, PC)); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rAdd, u64(v), mo, PC)); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rSub, u64(v), mo, PC)); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rAnd, u64(v), mo, PC)); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rOr, u64(v), mo, PC)); }   \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rXor, u64(v), mo, PC)); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return T(a_rmw(p, sizeof(T), rNand, u64(v), mo, PC)); } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {                        \
    return a_cas(p, sizeof(T), e, u64(v), mo, fmo, false, PC);                                                           \
  }                                                                                                                      \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {                          \
    return a_cas(p, sizeof(T), e, u64(v), mo, fmo, true, PC);                                                            \
  }                                                                                                                      \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {                               \
    a_cas(p, sizeof(T), &e, u64(v), mo, fmo, false, PC);                                                                 \
    return e;                                                                                                            \
  }
using a8 = unsigned char;
using a16 = unsigned short;
using a32 = unsigned int;
using a64 = unsigned long;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo, PC); }
void __tsan_atomic_signal_fence(int) {}

// ---- C++ runtime -----------------------------------------------------------------------------------
int __cxa_guard_acquire(u64* gd) {
  u8* b = (u8*)gd;
  if (!(g != nullptr && g->active)) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  const bool host = C().host != 0;
  if (!host) point(oGuard, PC);
  while (b[1] && !b[0]) block(wGuard, (std::uintptr_t)gd, false, 0);
  const std::ptrdiff_t l = lin((std::uintptr_t)gd);
  if (b[0]) {
    if (l >= 0) do_acquire(loc((std::uintptr_t)gd, l).sync, __ATOMIC_ACQUIRE);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* gd) {
  u8* b = (u8*)gd;
  b[0] = 1;
  b[1] = 0;
  if (g != nullptr && g->active) {
    const std::ptrdiff_t l = lin((std::uintptr_t)gd);
    if (l >= 0) {
      join(loc((std::uintptr_t)gd, l).sync, C().vc, g->nf);
      tick_clk();
    }
    wake(wGuard, (std::uintptr_t)gd);
  }
}
void __cxa_guard_abort(u64* gd) {
  ((u8*)gd)[1] = 0;
  if (g != nullptr && g->active) wake(wGuard, (std::uintptr_t)gd);
}
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
  if (g == nullptr || !g->active) return 0;
  Fiber& c = C();
  if (c.ndtors >= 32) die("too many thread_local destructors");
  c.dtors[c.ndtors++] = {f, o};
  return 0;
}

// ---- threads ------------------------------------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (g == nullptr || !g->active) die("pthread_create outside a run");
  point(oSpawn, PC);
  const int me = g->cur;
  const int id = new_fiber(fn, arg);
  Fiber& f = g->f[id];
  Fiber& c = g->f[me];
  join(f.vc, c.vc, g->nf);
  join(f.vis, c.vis, g->nf);
  f.vc.c[id] = f.vis.c[id] = 1;
  tick_clk();
  *t = (pthread_t)(id + 1);
  point(oSpawn, PC);
  return 0;
}
int pthread_join(pthread_t t, void** ret) {
  const int id = int(t) - 1;
  point(oJoin, PC);
  Fiber& f = g->f[id];
  if (f.joined || f.detached) return EINVAL;
  while (f.st != kDone) block(wJoin, std::uintptr_t(id), false, 0);
  f.joined = true;
  join(C().vc, f.vc, g->nf);
  join(C().vis, f.vc, g->nf);
  if (ret) *ret = f.ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  g->f[int(t) - 1].detached = true;
  return 0;
}
pthread_t pthread_self() {
  if (g == nullptr || !g->active) return 1;
  return (pthread_t)(g->cur + 1);
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield() {
  if (on()) point(oYield, PC, true);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  int* p = (int*)o;
  if (*p == 0) {
    *p = 1;
    f();
  }
  return 0;
}
int pthread_key_create(pthread_key_t* k, void (*)(void*)) {
  *k = g == nullptr ? 0 : (g->nkeys++ % 64);
  return 0;
}
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return g != nullptr && g->active ? C().keys[k] : nullptr; }
int pthread_setspecific(pthread_key_t k, const void* v) {
  if (g != nullptr && g->active) C().keys[k] = const_cast<void*>(v);
  return 0;
}

// ---- mutex / cond ---------------------------------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  std::memset(m, 0, sizeof *m);
  int type = PTHREAD_MUTEX_DEFAULT;
  if (a) pthread_mutexattr_gettype(a, &type);
  m->__data.__kind = type;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (on()) sync_access(m, sizeof *m, PC);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return 0;
  point(oLock, PC);
  sync_access(m, sizeof *m, PC);
  mutex_lock_impl(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return 0;
  point(oTry, PC);
  sync_access(m, sizeof *m, PC);
  Mutex& x = mutex_at(m);
  if (x.recursive && x.owner == g->cur) {
    ++x.count;
    return 0;
  }
  if (x.owner != -1) return EBUSY;
  mutex_lock_impl(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return 0;
  point(oUnlock, PC);
  sync_access(m, sizeof *m, PC);
  mutex_unlock_impl(m);
  return 0;
}
static int timedlock(pthread_mutex_t* m, u64 deadline, std::uintptr_t pc) {
  point(oLock, pc);
  sync_access(m, sizeof *m, pc);
  for (;;) {
    Mutex& x = mutex_at(m);
    if ((x.recursive && x.owner == g->cur) || x.owner == -1) {
      mutex_lock_impl(m);
      return 0;
    }
    if (deadline <= g->now) return ETIMEDOUT;
    if (block(wMutex, (std::uintptr_t)m, true, deadline) && mutex_at(m).owner != -1) return ETIMEDOUT;
  }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { return timedlock(m, ts_ns(ts), PC); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) { return timedlock(m, ts_ns(ts), PC); }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  std::memset(c, 0, sizeof *c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (on()) sync_access(c, sizeof *c, PC);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, false, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, true, ts_ns(ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) {
  if (!on()) return 0;
  return cond_wait_impl(c, m, true, ts_ns(ts), PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (on()) cond_signal_impl(c, false, PC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (on()) cond_signal_impl(c, true, PC);
  return 0;
}
// rwlocks (std::shared_mutex)
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  std::memset(l, 0, sizeof *l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!on()) return 0;
  point(oLock, PC);
  sync_access(l, sizeof *l, PC);
  mutex_lock_impl(l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!on()) return 0;
  point(oTry, PC);
  Mutex& m = mutex_at(l);
  if (m.owner != -1 || m.readers) return EBUSY;
  mutex_lock_impl(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!on()) return 0;
  point(oLock, PC);
  sync_access(l, sizeof *l, PC);
  while (mutex_at(l).owner != -1) block(wMutex, (std::uintptr_t)l, false, 0);
  Mutex& m = mutex_at(l);
  ++m.readers;
  do_acquire(m.vc, __ATOMIC_ACQUIRE);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!on()) return 0;
  point(oTry, PC);
  Mutex& m = mutex_at(l);
  if (m.owner != -1) return EBUSY;
  ++m.readers;
  do_acquire(m.vc, __ATOMIC_ACQUIRE);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!on()) return 0;
  point(oUnlock, PC);
  sync_access(l, sizeof *l, PC);
  Mutex& m = mutex_at(l);
  if (m.owner == g->cur) {
    mutex_unlock_impl(l);
  } else {
    --m.readers;
    join(m.vc, C().vc, g->nf);
    tick_clk();
    if (m.readers == 0) wake(wMutex, (std::uintptr_t)l);
  }
  return 0;
}

// ---- time --------------------------------------------------------------------------------------------
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
int clock_gettime(clockid_t id, timespec* ts) noexcept {
  if (g != nullptr && g->active) {
    if (C().host == 0) g->now += 1;
    ts->tv_sec = time_t(g->now / 1000000000ull);
    ts->tv_nsec = long(g->now % 1000000000ull);
    return 0;
  }
  return int(raw_syscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
static int sleep_until(u64 d, std::uintptr_t pc) {
  point(oSleep, pc);
  if (d > g->now) block(wSleep, 0, true, d);
  return 0;
}
int nanosleep(const timespec* ts, timespec*) {
  if (!on()) return 0;
  return sleep_until(g->now + ts_ns(ts), PC);
}
int clock_nanosleep(clockid_t, int flags, const timespec* ts, timespec*) {
  if (!on()) return 0;
  return sleep_until((flags & TIMER_ABSTIME) ? ts_ns(ts) : g->now + ts_ns(ts), PC);
}
int usleep(useconds_t us) {
  if (!on()) return 0;
  return sleep_until(g->now + us * 1000ull, PC);
}
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    const int op = int(a[1]) & 127;
    u32* p = (u32*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(oWait, PC);
      if (*p != u32(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      bool timed = a[3] != 0;
      u64 d = timed ? ts_ns((timespec*)a[3]) + (op == FUTEX_WAIT ? g->now : 0) : 0;
      if (block(wFutex, (std::uintptr_t)p, timed, d)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(oSignal, PC);
      long k = 0;
      for (int i = 0; i < g->nf && k < a[2]; ++i) {
        Fiber& f = g->f[i];
        if (f.st == kBlocked && f.why == wFutex && f.wait_on == (std::uintptr_t)p) {
          f.st = kRun;
          ++k;
        }
      }
      return k;
    }
    die("unsupported futex operation");
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = int(-r);
    return -1;
  }
  return r;
}
int get_nprocs() noexcept { return 2; }

}  // extern "C"

// ---- allocation ---------------------------------------------------------------------------------------
static void* do_new(std::size_t n, std::size_t al, std::uintptr_t pc) {
  if (on()) return arena_alloc(n, al, pc);
  void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
  if (!p) die("out of host memory");
  return p;
}
static void do_delete(void* p, std::uintptr_t pc) {
  if (!p) return;
  if ((std::uintptr_t)p - kHeapBase < kHeap) {
    arena_free(p, pc);
  } else if (in_region((std::uintptr_t)p)) {
    violation(kFree, "invalid-free", "free of a stack address at pc=%lx", (unsigned long)pc);
  } else {
    std::free(p);
  }
}
void* operator new(std::size_t n) { return do_new(n, 16, PC); }
void* operator new[](std::size_t n) { return do_new(n, 16, PC); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, PC); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), PC); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, std::size_t(a), PC); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, std::size_t(a), PC); }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { do_delete(p, PC); }
