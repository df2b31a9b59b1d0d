// C11: Wait returns only when ready; a timed-out wait leaves the futures intact.
#pragma once
#include "consume.hpp"

#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/util/detail/mutex_event.hpp>

#include <optional>

namespace c11 {
using namespace kit;
using F = yaclib::Future<Val, Err>;
using FO = yaclib::FutureOn<Val, Err>;
using SF = yaclib::SharedFuture<Val, Err>;
using P = yaclib::Promise<Val, Err>;
using SP = yaclib::SharedPromise<Val, Err>;
using steady = std::chrono::steady_clock;

constexpr int kMax = 24;

// The producing side of one run: n promises, planned outcomes, who completes them and when.
template <typename Pr>
struct Producers {
  int n;
  Out o[kMax];
  u32 form[kMax];
  HostInt started[kMax];
  int written[kMax] = {};
  std::optional<Pr> p[kMax];
  int owner[kMax];
  int delay[kMax];
  int sleep[kMax];
  int threads;

  explicit Producers(int count) : n{count} {
    threads = int(sim::gen(4));
    for (int i = 0; i < n; ++i) {
      o[i] = random_out(true);
      form[i] = sim::gen(6);
      owner[i] = int(sim::gen(u32(threads) + 1)) - 1;  // -1: completed before the wait
      delay[i] = int(sim::gen(4));
      sleep[i] = int(sim::gen(5));
    }
  }
  void set(int i) {
    for (int d = 0; d < delay[i]; ++d) sim::yield();
    if (sleep[i] > 1) std::this_thread::sleep_for(std::chrono::nanoseconds(400 * (sleep[i] - 1)));
    written[i] = 1;
    started[i].set(1);
    fulfil<Pr, Val, Err>(std::move(*p[i]), o[i], form[i]);
    p[i].reset();
  }
  void before() {
    for (int i = 0; i < n; ++i) {
      if (owner[i] == -1) {
        delay[i] = sleep[i] = 0;
        set(i);
      }
    }
  }
  void go(Threads& th) {
    for (int t = 0; t < threads; ++t) {
      th.go([this, t] {
        for (int i = n; i-- > 0;) {
          if (owner[i] == t) set(i);
        }
      });
    }
  }
  bool all_started(int from, int count) const {
    for (int i = from; i < from + count; ++i) {
      if (!started[i].get()) return false;
    }
    return true;
  }
};

template <typename Fut>
void check_ready(Fut& f, const char* what, int i) {
  SIM_CHECK(f.Valid(), "valid", "%s: future %d is not Valid afterwards", what, i);
  SIM_CHECK(f.Ready(), "ready", "%s returned although future %d is not Ready", what, i);
}

struct Timed {
  u64 ns = 0;
  bool until = false;
  u64 t0 = 0;
  steady::time_point dl;
  void begin() {
    ns = u64(sim::gen(6)) * 450;
    until = sim::gen(2);
    t0 = sim::now();
    dl = steady::now() + std::chrono::nanoseconds(ns);
  }
  template <typename... A>
  bool wait(A&&... a) {
    begin();
    if (until) return WaitUntil(dl, std::forward<A>(a)...);
    return WaitFor(std::chrono::nanoseconds(ns), std::forward<A>(a)...);
  }
  void expired() const {
    sim::count(sim::kTimeout);
    if (until) {
      SIM_CHECK(steady::now() >= dl, "early-timeout", "WaitUntil returned false before its deadline");
    } else {
      SIM_CHECK(sim::now() >= t0 + ns, "early-timeout", "WaitFor returned false %llu ns after the call instead of %llu", (unsigned long long)(sim::now() - t0), (unsigned long long)ns);
    }
  }
};

// afterwards each future still delivers its result exactly once
template <typename Fut, typename Pr>
void deliver_all(std::vector<Fut>& fs, Producers<Pr>& pr, const int* mode, Slots& slots, yaclib::IExecutor& e) {
  for (int k = 0; k < pr.n; ++k) {
    consume<Fut>(std::move(fs[std::size_t(k)]), mode[k], Watch{&slots, k, &pr.started[k], &pr.written[k]}, e);
  }
}
template <typename Pr>
void judge(Producers<Pr>& pr, const int* mode, Slots& slots) {
  for (int i = 0; i < pr.n; ++i) {
    if (mode[i] < mModesObserved) {
      const Out want = expected<Val, Err>(pr.o[i]);
      SIM_CHECK(slots.count(i) == 1, "exactly-once", "future %d (%s after waiting): the result was delivered %d times", i, mode_name(mode[i]), slots.count(i));
      SIM_CHECK(slots.last(i) == want, "intact", "future %d (%s after waiting): set %c%d but observed %c%d", i, mode_name(mode[i]), want.k, want.id, slots.last(i).k, slots.last(i).id);
    } else {
      SIM_CHECK(slots.count(i) == 0, "dropped", "something ran although future %d was dropped", i);
    }
  }
}
}  // namespace c11
