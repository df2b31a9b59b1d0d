// simulator <-> driver
#pragma once
#include "sim.hpp"

namespace sim {

constexpr u32 kMaxGen = 8192;
constexpr u32 kMaxDev = 16384;

struct Dev {
  u32 k, v;
};

struct Record {
  u32 failed;
  u32 cls;
  char key[64];
  char msg[1024];
  char workload[64];
  u64 seed;
  u64 hash;
  u64 steps;
  u64 now;
  u64 switches;
  int fibers;
  u32 nontrivial;
  // streams
  u32 gen_fixed;
  u32 sched_fixed;
  u64 sched_seed;
  u32 ngen;
  u32 ndev;
  u32 overflow;
  u32 gen[kMaxGen];
  Dev dev[kMaxDev];
};

struct Stats {
  u64 runs, steps, switches, sim_ns, fibers, fair_runs;
  u64 faults[kFaultKinds];
};

Workload* workloads();
void rt_init(Record* rec);
u64 rt_run(const Workload* wl, u64 seed, const Record* in, bool trace);
Stats& rt_stats();
const char* rt_cls_name(u32 c);
u32 rt_probes(const char** names, u64* counts, u32 max);
[[noreturn]] void record_exit();  // provided by the driver: the record describes a violation

}  // namespace sim
