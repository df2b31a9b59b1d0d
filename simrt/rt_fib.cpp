// Runtime for the checks of the fault-injection backends. There the library's own fiber scheduler is the code under test, so nothing is
// replaced: every run is a generated program executed by the real scheduler; the choices it draws (next fiber, yield, spurious CAS
// failure, sleep jitter) come from a recorded stream when the workload asks for it, otherwise from the library's own engine.
#include "fib.hpp"
#include "rt.hpp"

#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

const char* const kFaultNames[kFaultKinds] = {"forced_yield_draw", "other_fiber_picked", "weak_cas_fail", "sleep_jitter", "other_draw", "", "", "", "", "", "", "", "", "", "user0", "user1", "user2", "user3"};

namespace {

struct Rng {
  u64 s[2];
  void seed(u64 x) {
    for (u64& v : s) {
      x += 0x9e3779b97f4a7c15ull;
      u64 z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      v = z ^ (z >> 31);
    }
  }
  u64 next() {
    u64 a = s[0];
    const u64 b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  u32 below(u64 n) { return n <= 1 ? 0 : u32(next() % n); }
};

struct G {
  Record* rec;
  const Workload* wl;
  const Record* in;
  u64 seed, hash, nev, ndraw, switches, now;
  u32 ngen, nchoose, dev_pos;
  int fibers, cur;
  bool trace, active, failing, steer, limit_off;
  u64 limit;
  u32 p_stay;  // how often a fiber choice keeps the default
  Rng rgen, rsch;
  u64 run_faults[kFaultKinds];
  Stats stats;
  struct P {
    const char* name;
    u64 n;
  } probes[256];
  u32 nprobes;
};
G* g;
Workload* wlist;

const char* clsname(Cls c) {
  switch (c) {
    case kOracle: return "oracle";
    case kHang: return "hang";
    case kProgress: return "progress";
    case kRace: return "race";
    case kUaf: return "uaf";
    case kFree: return "free";
    case kLeak: return "leak";
    case kCrash: return "crash";
  }
  return "?";
}

void mixh(u64 v) {
  g->hash = (g->hash ^ v) * 0x9E3779B97F4A7C15ull;
  g->hash ^= g->hash >> 29;
}

[[noreturn]] void vfail(Cls cls, const char* key, const char* fmt, va_list ap) {
  Record& r = *g->rec;
  if (g->failing) _exit(4);
  g->failing = true;
  char msg[900];
  std::vsnprintf(msg, sizeof msg, fmt, ap);
  r.failed = 1;
  r.cls = cls;
  std::snprintf(r.key, sizeof r.key, "%s", key);
  std::snprintf(r.msg, sizeof r.msg, "[%s] event %llu t=%lluns fiber %d: %s", clsname(cls), (unsigned long long)g->nev, (unsigned long long)g->now, g->cur, msg);
  r.seed = g->seed;
  r.hash = g->hash;
  r.steps = g->nev;
  r.switches = g->switches;
  r.fibers = g->fibers;
  r.now = g->now;
  if (g->trace) std::printf("VIOL %s key=%s %s\n", clsname(cls), key, r.msg);
  std::fflush(stdout);
  g->active = false;
  record_exit();
}

void on_signal(int s) {
  if (g == nullptr || !g->active) {
    signal(s, SIG_DFL);
    raise(s);
    return;
  }
  if (s == SIGVTALRM || s == SIGALRM) fail(kProgress, "spin", "the program runs forever without reaching a scheduling point (%s)", strsignal(s));
  fail(kCrash, s == SIGABRT ? "abort" : s == SIGFPE ? "fpe" : "signal", "%s", strsignal(s));
}

u32 sched_choice(u32 n, u32 v) {
  const u32 k = g->nchoose++;
  if (g->in != nullptr && g->in->sched_fixed) {
    v = 0;
    while (g->dev_pos < g->in->ndev && g->in->dev[g->dev_pos].k < k) ++g->dev_pos;
    if (g->dev_pos < g->in->ndev && g->in->dev[g->dev_pos].k == k) v = g->in->dev[g->dev_pos].v % n;
  }
  if (v != 0) {
    Record& r = *g->rec;
    if (r.ndev < kMaxDev) {
      r.dev[r.ndev++] = {k, v};
    } else {
      r.overflow = 1;
    }
  }
  return v;
}

u32 gen_raw(u32 n) {
  u32 v;
  Record& r = *g->rec;
  if (n == 0) n = 1;
  if (g->in != nullptr && g->in->gen_fixed) {
    v = (g->ngen < g->in->ngen ? g->in->gen[g->ngen] : 0) % n;
  } else {
    v = g->rgen.below(n);
  }
  if (g->ngen < kMaxGen) {
    r.gen[g->ngen] = v;
    r.ngen = g->ngen + 1;
  } else {
    r.overflow = 1;
  }
  ++g->ngen;
  return v;
}

u64 hash_str(const char* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ u8(*s)) * 1099511628211ull;
  return h;
}

void step() {
  if (!g->limit_off && ++g->nev > g->limit) fail(kProgress, "limit", "not finished after %llu events although every fiber is scheduled fairly", (unsigned long long)g->limit);
}

}  // namespace

Workload::Workload(const char* n, const char* p, void (*b)(), u32 m, u32 w, u32 ms) : name{n}, property{p}, body{b}, mask{m}, weight{w}, max_steps{ms}, next{wlist} { wlist = this; }
Workload* workloads() { return wlist; }

u32 gen(u32 n) { return gen_raw(n); }
bool genp(u32 num, u32 den) { return gen_raw(den) >= den - num; }
bool knob(u32 num, u32 den) { return genp(num, den); }
u32 choose(u32 n, Fault kind) {
  if (n <= 1) return 0;
  const u32 v = sched_choice(n, g->rsch.below(n));
  if (v) ++g->run_faults[kind];
  return v;
}
bool flip(u32 num, u32 den, Fault kind) {
  const u32 v = sched_choice(2, g->rsch.below(den) < num ? 1 : 0);
  if (v) ++g->run_faults[kind];
  return v != 0;
}
void count(Fault kind) { ++g->run_faults[kind]; }
void fail(Cls cls, const char* key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, key, fmt, ap);
}
void log(const char* fmt, ...) {
  if (!g->trace) return;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  std::printf("L %llu %d %s\n", (unsigned long long)g->nev, g->cur, b);
}
void ev(u32 a, u64 b, u64 c) {
  step();
  mixh((u64(a) << 32) + b * 31 + c * 0x10001 + u64(g->cur) * 0x1000003);
  if (g->trace) std::printf("E %llu %d ev %u %llu %llu\n", (unsigned long long)g->nev, g->cur, a, (unsigned long long)b, (unsigned long long)c);
}
void probe(const char* name) {
  for (u32 i = 0; i < g->nprobes; ++i) {
    if (g->probes[i].name == name) {
      ++g->probes[i].n;
      return;
    }
  }
  if (g->nprobes < 256) g->probes[g->nprobes++] = {name, 1};
}
u64 rnd_seed() { return g->seed; }
u64 steps() { return g->nev; }

// ---- the backend's seams --------------------------------------------------------------------------------
namespace fib {

bool running() { return g != nullptr && g->active; }
void set_steer(bool on) { g->steer = on; }
void set_limit(u64 n) {
  g->limit = n;
  g->limit_off = n == 0;
}
void set_time(u64 ns) { g->now = ns; }
void on_fiber() { ++g->fibers; }
void on_switch(int id) {
  if (!running()) return;
  step();
  if (id != g->cur) ++g->switches;
  g->cur = id;
  mixh(0x5A0000 + u64(id));
  if (g->trace) std::printf("S %llu -> fiber %d t=%llu\n", (unsigned long long)g->nev, id, (unsigned long long)g->now);
}
void set_cur(int id) { g->cur = id; }
void forget_cur() { g->cur = 0; }
u64 hash() { return g->hash; }
void set_nontrivial() { g->rec->nontrivial = 1; }

u64 on_draw(u64 max, u64 real, Draw what) {
  if (!running()) return real;
  step();
  ++g->ndraw;
  if (!g->steer) {
    if (what == kDrawWeak && real == 0) ++g->run_faults[2];
    mixh(0xD0000 + real * 7 + max);
    if (g->trace) std::printf("P %llu %d draw %llu of %llu\n", (unsigned long long)g->nev, g->cur, (unsigned long long)real, (unsigned long long)max);
    return real;
  }
  if (max <= 1) return 0;
  const u32 n = u32(max > 0xFFFFFFFFull ? 0xFFFFFFFFull : max);
  // recorded value 0 is the quiet choice
  u32 v = g->rsch.below(n);
  if (g->rsch.below(100) < g->p_stay) v = 0;
  v = sched_choice(n, v);
  mixh(0xD0000 + v);
  static const char* const names[] = {"pick", "yield-count", "weak-cas", "jitter", "other"};
  static const u32 kinds[] = {1, 0, 2, 3, 4};
  if (v) ++g->run_faults[kinds[what]];
  if (g->trace && v) std::printf("F %llu %d %s %u of %u\n", (unsigned long long)g->nev, g->cur, names[what], v, n);
  if (what == kDrawWeak) return v == 1 ? 0 : 1;  // 0 in the stream: no failure
  return v;
}

}  // namespace fib

// ---- driver interface --------------------------------------------------------------------------------------
void rt_init(Record* rec) {
  mallopt(M_PERTURB, 0x5A);  // fresh and freed memory holds a pattern, the same in every process
  g = new G{};
  g->rec = rec;
  static char alt[64 * 1024];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
Stats& rt_stats() { return g->stats; }
const char* rt_cls_name(u32 c) { return clsname(Cls(c)); }
u32 rt_probes(const char** names, u64* counts, u32 max) {
  u32 n = 0;
  for (; n < g->nprobes && n < max; ++n) {
    names[n] = g->probes[n].name;
    counts[n] = g->probes[n].n;
  }
  return n;
}

u64 rt_run(const Workload* wl, u64 seed, const Record* in, bool trace) {
  Record& r = *g->rec;
  r.failed = 0;
  r.ngen = 0;
  r.ndev = 0;
  r.overflow = 0;
  r.nontrivial = 0;
  std::snprintf(r.workload, sizeof r.workload, "%s", wl->name);
  r.seed = seed;
  g->wl = wl;
  g->seed = seed;
  g->in = in;
  g->trace = trace;
  g->hash = 0x1234567;
  g->nev = g->ndraw = g->switches = g->now = 0;
  g->ngen = g->nchoose = g->dev_pos = 0;
  g->fibers = 0;
  g->cur = 0;
  g->limit = wl->max_steps;
  g->limit_off = false;
  g->steer = true;
  std::memset(g->run_faults, 0, sizeof g->run_faults);
  g->rgen.seed(seed * 2 + 0x51 + hash_str(wl->name));
  g->rsch.seed((in != nullptr && !in->sched_fixed ? in->sched_seed * 7919 : 0) + seed * 2 + 0xACE1 + hash_str(wl->name) * 3);
  static const u32 stay[] = {0, 0, 30, 60, 85};
  g->p_stay = stay[g->rsch.below(5)];
  itimerval tv{};
  tv.it_value.tv_sec = 8;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  g->active = true;
  wl->body();
  g->active = false;
  for (u32 i = 0; i < kFaultKinds; ++i) g->stats.faults[i] += g->run_faults[i];
  g->stats.runs++;
  g->stats.steps += g->nev;
  g->stats.switches += g->switches;
  g->stats.sim_ns += g->now;
  g->stats.fibers += u64(g->fibers);
  r.hash = g->hash;
  r.steps = g->nev;
  r.switches = g->switches;
  r.now = g->now;
  r.fibers = g->fibers;
  return g->hash;
}

}  // namespace sim
