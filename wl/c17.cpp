// C17: the same (program, seed, configuration) is executed again in the same process, in the same scheduler or in a new one, after other
// programs have run, with another heap layout and other clocks; or continued from a recorded (random count, injector state).
#include "wl/c17.hpp"

#include "wl/c17_env.hpp"

#include <yaclib/fault/inject.hpp>

#include <cstdio>
#include <functional>
#include <string>

namespace c17 {
namespace {

struct Event {
  u32 kind;
  u64 a, b, injected, t, state;
  bool operator==(const Event& o) const { return kind == o.kind && a == o.a && b == o.b && injected == o.injected && t == o.t && state == o.state; }
};
const char* const kSegments[kKinds] = {"atomics", "locks", "timed", "cv", "pool", "strand", "wait", "coro", "comb", "misc"};
const char* const kNames[] = {"", "draw", "switch to fiber", "weak CAS failed"};

// one recorded execution, or the rest of one
struct Log {
  std::vector<Event> e;
  u64 t0 = 0, injected0 = 0;
  std::vector<u64> ids;  // fibers in order of appearance

  void start() {
    t0 = now();
    injected0 = yaclib::GetInjectedCount();
    ids.clear();
  }
  u64 fiber(u64 id) {
    for (u64 i = 0; i < ids.size(); ++i) {
      if (ids[i] == id) return i;
    }
    ids.push_back(id);
    return ids.size() - 1;
  }
};
Log* logs[4];
u32 nlogs;

void add(u32 kind, u64 a, u64 b) {
  for (u32 i = 0; i < nlogs; ++i) {
    Log& l = *logs[i];
    Event v{kind, a, b, yaclib::GetInjectedCount() - l.injected0, now() - l.t0, yaclib::fiber::GetInjectorState()};
    if (kind == 2) {
      v.a = l.fiber(a);
      v.b = 0;
    }
    l.e.push_back(v);
  }
}
void trace(u32 kind, u64 a, u64 b) { add(kind, a, b); }

void logging(Log* l) {
  l->start();
  logs[nlogs++] = l;
}

std::string text(const Log& l, std::size_t i) {
  if (i >= l.e.size()) return "(nothing)";
  const Event& v = l.e[i];
  char b[160];
  std::snprintf(b, sizeof b, "%s(%u) %llu %llu at %llu ns, %llu yields injected, injector state %llu", v.kind < 4 ? kNames[v.kind] : "program", v.kind, (unsigned long long)v.a, (unsigned long long)v.b, (unsigned long long)v.t, (unsigned long long)v.injected, (unsigned long long)v.state);
  return b;
}

void compare(const char* key, const char* what, const Log& a, const Log& b) {
  std::size_t i = 0;
  while (i < a.e.size() && i < b.e.size() && a.e[i] == b.e[i]) ++i;
  if (i == a.e.size() && i == b.e.size()) return;
  sim::fail(sim::kOracle, key, "%s: the executions differ from event %zu of %zu on: first [%s] then [%s]", what, i, a.e.size(), text(a, i).c_str(), text(b, i).c_str());
}

// ---- the experiment -------------------------------------------------------------------------------------------
struct World {
  fk::Config cfg, other_cfg;
  std::vector<Script> prog, other;
  Log original, again, tail;
  u32 mark_at = 0;  // the pair is recorded before this segment
  u64 mark_count = 0, mark_state = 0, count[2] = {0, 0};
  bool dirty = false, late = false, reuse = false;
  u64 noise = 0;
};
World* w;

void execute(u32 from, bool mark) {
  for (u32 i = from; i < w->prog.size(); ++i) {
    if (i != from || from == 0) add(5, i, yaclib::fiber::GetInjectorState());
    if (mark && i == w->mark_at && i != 0) {
      w->mark_count = yaclib::fiber::GetFaultRandomCount();
      w->mark_state = yaclib::fiber::GetInjectorState();
      logging(&w->tail);
    }
    run_segment(w->prog[i]);
  }
  add(5, yaclib::fiber::GetInjectorState(), 0);
}
void begin(Log* l) {
  logging(l);
  fk::set_trace(trace);
}
void end() {
  fk::set_trace(nullptr);
  nlogs = 0;
}
// something else runs in the process, with another seed and configuration
void something_else() {
  if (!w->dirty) return;
  fk::apply(w->other_cfg);
  for (const Script& s : w->other) run_segment(s);
}

void original() {
  env(w->noise, w->reuse);
  something_else();
  fk::apply(w->cfg);  // the configuration, SetSeed, SetInjectorState(0)
  const u64 c0 = yaclib::fiber::GetFaultRandomCount();
  begin(&w->original);
  execute(0, true);
  end();
  w->count[0] = yaclib::fiber::GetFaultRandomCount() - c0;
}
void again() {
  env(w->noise + 77, w->reuse);
  something_else();
  fk::apply(w->cfg);
  const u64 c0 = yaclib::fiber::GetFaultRandomCount();
  begin(&w->again);
  execute(0, false);
  end();
  w->count[1] = yaclib::fiber::GetFaultRandomCount() - c0;
}
void rest() {
  env(w->noise + 99, w->reuse);
  something_else();
  fk::apply(w->cfg);
  if (w->late) {  // some draws before the restoration: it forwards *to* the count
    const u64 c = yaclib::fiber::GetFaultRandomCount();
    for (int i = 0; i < 3 && yaclib::fiber::GetFaultRandomCount() - c < 3 && yaclib::fiber::GetFaultRandomCount() + 8 < w->mark_count; ++i) yaclib_std::this_thread::yield();
  }
  yaclib::fiber::ForwardToFaultRandomCount(w->mark_count);
  yaclib::fiber::SetInjectorState(u32(w->mark_state));
  if (yaclib::fiber::GetFaultRandomCount() != w->mark_count) sim::fail(sim::kOracle, "count", "ForwardToFaultRandomCount(%llu) left the count at %llu", (unsigned long long)w->mark_count, (unsigned long long)yaclib::fiber::GetFaultRandomCount());
  begin(&w->again);
  execute(w->mark_at, false);
  end();
}

void both_again() {
  original();
  again();
}
void both_rest() {
  original();
  rest();
}

void experiment(bool restore, bool reuse, bool strand = false) {
  World world;
  w = &world;
  nlogs = 0;
  w->cfg = fk::gen_config(sim::genp(7, 8));
  w->other_cfg = fk::gen_config(true);
  w->dirty = sim::genp(1, 2);
  w->reuse = reuse;
  const bool one = sim::genp(1, 2);  // one scheduler for everything
  w->noise = 1 + sim::gen(1000000);
  const u32 n = reuse ? 1 : restore ? 2 + sim::gen(3) : 1 + sim::gen(3);
  for (u32 i = 0; i < n; ++i) w->prog.push_back(Script::make(kKinds));
  // the strands are a workload of their own: see known_findings.txt
  if (reuse) w->prog[0].kind = strand ? 5 : w->prog[0].kind == 5 ? 0 : w->prog[0].kind;
  if (w->dirty) w->other.push_back(Script::make(kKinds));
  if (restore) {
    w->mark_at = 1 + sim::gen(n - 1);
    w->late = sim::genp(1, 3);
  }
  if (one) {
    fk::run(w->cfg, restore ? both_rest : both_again, false);
  } else {
    fk::run(w->cfg, original, false);
    // the restoration can also happen before the scheduler starts
    fk::run(w->other_cfg, restore ? rest : again, false);
  }
  env_off();
  if (restore) {
    compare("restored", "continued from the recorded random count and injector state", w->tail, w->again);
  } else {
    static char key[24];
    std::snprintf(key, sizeof key, reuse ? "reuse-%s" : "again", kSegments[w->prog[0].kind % kKinds]);
    compare(key, "executed again after re-seeding and resetting the injector", w->original, w->again);
    if (w->count[0] != w->count[1]) sim::fail(sim::kOracle, "count", "%llu random draws were counted at first, then %llu", (unsigned long long)w->count[0], (unsigned long long)w->count[1]);
  }
  sim::probe(one ? "one_scheduler" : "two_schedulers");
  if (w->dirty) sim::probe("other_program_between");
  if (w->original.e.size() > 30) sim::fib::set_nontrivial();
  w = nullptr;
}

void repeat() { experiment(false, false); }
void restore() { experiment(true, false); }
void reuse() { experiment(false, true); }
void strand() { experiment(false, true, true); }

const sim::Workload w0{"c17/again", "C17", repeat, sim::kAll, 20, 3000000};
const sim::Workload w2{"c17/reuse", "C17", reuse, sim::kAll, 10, 3000000};
const sim::Workload w3{"c17/strandreuse", "C17", strand, sim::kAll, 1, 3000000};
const sim::Workload w1{"c17/restore", "C17", restore, sim::kAll, 20, 3000000};

}  // namespace

Script Script::make(u32 kinds) {
  Script s;
  s.kind = sim::gen(kinds);
  s.k = 1 + sim::gen(4);
  s.len = 1 + sim::gen(5);
  const u32 n = 3 + sim::gen(30);
  for (u32 i = 0; i < n; ++i) s.d.push_back(sim::gen(1000));
  return s;
}

void ev(u32 kind, u64 a, u64 b) {
  add(4, (u64(kind) << 56) + a, b);
  sim::ev(kind, a, b);
}

void run_segment(const Script& s) {
  static void (*const k[kKinds])(const Script&) = {seg_atomics, seg_locks, seg_timed, seg_cv, seg_pool, seg_strand, seg_wait, seg_coro, seg_comb, seg_misc};
  k[s.kind % kKinds](s);
}

}  // namespace c17
