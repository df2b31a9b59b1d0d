#include "wl/fib_kit.hpp"

#if YACLIB_FAULT == 2
#  include <yaclib/fault/detail/fiber/fiber_base.hpp>
#  include <yaclib/fault/detail/fiber/scheduler.hpp>
#endif

#include <ctime>

namespace {

fk::Config cfg;
[[maybe_unused]] sim::u64 base_id;
[[maybe_unused]] sim::u64 last_time;
[[maybe_unused]] int last_id;
bool in_weak;
fk::IdleFn idle_fn;
fk::TraceFn trace_fn;
bool done;
void (*the_body)();
#if YACLIB_FAULT == 1
sim::u64 slept;
#endif

}  // namespace

// ---- seams: the linker routes these calls here (--wrap) -----------------------------------------------------
extern "C" {
// weak: a seam that the code no longer has is simply not there
[[gnu::weak]] std::uint64_t __real__ZN6yaclib6detail13GetRandNumberEm(std::uint64_t max);
std::uint64_t __wrap__ZN6yaclib6detail13GetRandNumberEm(std::uint64_t max) {
  const std::uint64_t real = __real__ZN6yaclib6detail13GetRandNumberEm(max);
  const auto what = in_weak                   ? sim::fib::kDrawWeak
                    : max == 2ull * cfg.pick ? sim::fib::kDrawPick
                    : max == cfg.freq        ? sim::fib::kDrawYield
                    : max == cfg.sleep       ? sim::fib::kDrawSleep
                                             : sim::fib::kDrawOther;
  const std::uint64_t v = sim::fib::on_draw(max, real, what);
  if (trace_fn != nullptr) trace_fn(1, max, v);
  return v;
}
[[gnu::weak]] bool __real__ZN6yaclib6detail20ShouldFailAtomicWeakEv();
bool __wrap__ZN6yaclib6detail20ShouldFailAtomicWeakEv() {
  in_weak = true;
  const bool r = __real__ZN6yaclib6detail20ShouldFailAtomicWeakEv();
  in_weak = false;
  if (trace_fn != nullptr) trace_fn(3, r, 0);
  return r;
}
#if YACLIB_FAULT == 1
// the injected sleeps take no time
int nanosleep(const timespec* t, timespec*) {
  slept += sim::u64(t->tv_sec) * 1000000000ull + sim::u64(t->tv_nsec);
  sim::count(sim::kUser0);
  return 0;
}
#endif
#if YACLIB_FAULT == 2
[[gnu::weak]] void __real__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(yaclib::detail::fiber::FiberBase* f);
void __wrap__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(yaclib::detail::fiber::FiberBase* f) {
  if (sim::fib::running()) {
    if (base_id == 0) base_id = f->GetId() - 1;
    const sim::u64 t = yaclib::fault::Scheduler::GetScheduler()->GetTimeNs();
    sim::fib::set_time(t);
    if (t > last_time + cfg.tick && idle_fn != nullptr) idle_fn();
    last_time = t;
    const int id = int(f->GetId() - base_id);
    if (id > 1 && last_id > 1 && id != last_id) sim::fib::set_nontrivial();
    last_id = id;
    sim::fib::on_switch(id);
    if (trace_fn != nullptr) trace_fn(2, f->GetId(), t);
  }
  __real__ZN6yaclib6detail5fiber9FiberBase6ResumeEv(f);
}
#endif
}

namespace fk {

Config gen_config(bool injections) {
  // the values are pairwise different, so that a draw tells what it is for
  static const u32 freqs[] = {16, 3, 2, 1, 5, 9, 30};
  static const u32 picks[] = {10, 7, 2, 1 + 10, 4, 19};
  static const u32 weaks[] = {13, 3, 2, 0};
  static const u32 sleeps[] = {100, 51, 201, 1};
  static const u32 ticks[] = {10, 1, 1000};
  Config c;
  c.pick = picks[sim::gen(6)];
  c.weak = weaks[sim::gen(4)];
  c.sleep = sleeps[sim::gen(4)];
  c.tick = ticks[sim::gen(3)];
  c.freq = injections ? freqs[sim::gen(7)] : kNever;
  c.seed = 1 + sim::gen(1u << 20);
  return c;
}

void apply(const Config& c) {
  cfg = c;
  yaclib::SetFaultFrequency(c.freq);
  yaclib::SetAtomicFailFrequency(c.weak);
  yaclib::SetFaultSleepTime(c.sleep);
  yaclib::fiber::SetFaultRandomListPick(c.pick);
  yaclib::fiber::SetFaultTickLength(c.tick);
  yaclib::fiber::SetStackSize(16);
  yaclib::fiber::SetHardwareConcurrency(4);
  yaclib::SetSeed(c.seed);
  yaclib::fiber::SetInjectorState(0);
}

void set_idle(IdleFn f) { idle_fn = f; }
void set_trace(TraceFn f) { trace_fn = f; }

#if YACLIB_FAULT == 2
void reset_idle() { last_time = yaclib::fault::Scheduler::GetScheduler()->GetTimeNs(); }
u64 now() { return yaclib::fault::Scheduler::GetScheduler()->GetTimeNs(); }
int self() { return int(yaclib::fault::Scheduler::GetId() - base_id); }

void run(const Config& c, void (*body)(), bool steer) {
  base_id = 0;
  last_id = 0;
  last_time = 0;
  in_weak = false;
  done = false;
  the_body = body;
  sim::fib::set_steer(steer);
  apply(c);
  yaclib::fault::Scheduler scheduler;
  yaclib::fault::Scheduler::Set(&scheduler);
  {
    yaclib_std::thread t{[] {
      the_body();
      done = true;
    }};
    // the scheduler ran inside the constructor until nothing could run any more
    sim::fib::set_time(scheduler.GetTimeNs());
    if (!done) sim::fail(sim::kHang, "parked", "nothing can run, no sleeper is left, and the program has not finished");
    t.join();
  }
  yaclib::fault::Scheduler::Set(nullptr);
  idle_fn = nullptr;
}
#else
void reset_idle() {}
u64 now() { return slept; }
int self() { return 0; }

void run(const Config& c, void (*body)(), bool steer) {
  in_weak = false;
  slept = 0;
  sim::fib::set_steer(steer);
  apply(c);
  body();
  sim::fib::set_time(slept);
  idle_fn = nullptr;
}
#endif

}  // namespace fk
