// Unique futures: every form of Wait / WaitFor / WaitUntil.
#include "c11.hpp"

namespace {
using namespace c11;

// one wait on fs[from, from+count) in a generated form; count >= 1. Returns what the call returned.
template <typename Fut>
bool wait_some(std::vector<Fut>& fs, int from, int count, bool timed, Timed& t) {
  auto b = fs.begin() + from;
  const u32 form = sim::gen(4);
  if (form < 2 && count <= 3) {
    Fut& x = b[0];
    if (count == 1) {
      if (timed) return t.wait(x);
      Wait(x);
    } else if (count == 2) {
      if (timed) return t.wait(b[1], x);
      Wait(x, b[1]);
    } else {
      if (timed) return t.wait(x, b[2], b[1]);
      Wait(x, b[1], b[2]);
    }
    return true;
  }
  if (sim::genp(1, 3)) {
    const Backwards<Fut> r{fs, std::size_t(from), std::size_t(count)};
    if (form % 2) {
      if (timed) return t.wait(r.begin(), r.end());
      Wait(r.begin(), r.end());
    } else {
      if (timed) return t.wait(r.begin(), r.size());
      Wait(r.begin(), r.size());
    }
  } else if (form % 2) {
    if (timed) return t.wait(b, b + count);
    Wait(b, b + count);
  } else {
    if (timed) return t.wait(b, std::size_t(count));
    Wait(b, std::size_t(count));
  }
  return true;
}

template <typename Fut>
void unique() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  const int n = int(amount(5, kMax));
  Producers<P> pr{n};
  Slots slots{kMax};
  int mode[kMax];
  for (int i = 0; i < n; ++i) mode[i] = int(sim::gen(mModes));
  {
    std::vector<Fut> fs;
    for (int i = 0; i < n; ++i) {
      if constexpr (FutureTypes<Fut>::on) {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(*e);
        fs.push_back(std::move(f));
        pr.p[i].emplace(std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        fs.push_back(std::move(f));
        pr.p[i].emplace(std::move(p));
      }
    }
    pr.before();
    Threads th;
    pr.go(th);
    const int rounds = 1 + int(sim::gen(3));
    for (int r = 0; r < rounds; ++r) {
      const int from = int(sim::gen(u32(n)));
      const int count = n - from - int(sim::gen(u32(n - from)));
      const bool timed = sim::gen(4) != 0;
      if (sim::gen(8) == 7) {  // nothing to wait for
        Wait(fs.begin(), fs.begin());
        SIM_CHECK(WaitFor(std::chrono::nanoseconds(0), fs.begin(), std::size_t(0)), "empty", "WaitFor of no futures returned false");
      }
      Timed t;
      const bool ok = wait_some(fs, from, count, timed, t);
      sim::scribble_stack();
      if (ok) {
        for (int i = from; i < from + count; ++i) check_ready(fs[std::size_t(i)], timed ? "WaitFor (true)" : "Wait", i);
        SIM_CHECK(pr.all_started(from, count), "early", "the wait ended before every future was fulfilled");
        for (int i = from; i < from + count; ++i) SIM_CHECK(pr.written[i] == 1, "lost-write", "a write made before fulfilment is not visible after the wait");
      } else {
        SIM_CHECK(timed, "harness", "untimed");
        t.expired();
        bool some = false;
        for (int i = from; i < from + count; ++i) {
          SIM_CHECK(fs[std::size_t(i)].Valid(), "valid", "future %d is not Valid after a timed-out wait", i);
          some = some || fs[std::size_t(i)].Ready();
        }
        if (some) sim::probe("timeout_with_some_ready");
      }
      if (sim::gen(2)) pause(3);
    }
    deliver_all(fs, pr, mode, slots, *e);
    fs.clear();
  }
  e = nullptr;
  ex.shutdown();
  judge(pr, mode, slots);
  check_no_live("after waiting");
}

// Nobody else fulfils: the waiting thread does it between two timed waits, so each of them must come back by itself.
template <typename Fut>
void by_hand() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  Producers<P> pr{int(amount(4, kMax))};
  const int n = pr.n;
  Slots slots{kMax};
  int mode[kMax];
  for (int i = 0; i < n; ++i) {
    mode[i] = int(sim::gen(mModes));
    pr.delay[i] = 0;
    pr.sleep[i] = 0;
  }
  {
    std::vector<Fut> fs;
    for (int i = 0; i < n; ++i) {
      if constexpr (FutureTypes<Fut>::on) {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(*e);
        fs.push_back(std::move(f));
        pr.p[i].emplace(std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        fs.push_back(sim::gen(3) ? std::move(f) : relay<Val, Err>(std::move(f)));
        pr.p[i].emplace(std::move(p));
      }
    }
    Threads th;
    const bool busy = sim::gen(2);
    const bool backwards = sim::gen(2);
    HostInt stop;
    if (busy) {  // somebody else only looks
      th.go([&] {
        for (int k = 0; k < 20 && !stop.get(); ++k) sim::yield();
      });
    }
    for (int done = 0;;) {
      const int from = int(sim::gen(u32(n)));
      const int count = n - from - int(sim::gen(u32(n - from)));
      const bool ready = pr.all_started(from, count);
      Timed t;
      const bool ok = wait_some(fs, from, count, true, t);
      sim::scribble_stack();
      if (ok) {
        SIM_CHECK(ready, "early", "a timed wait returned true although nobody had fulfilled some of the futures");
        for (int i = from; i < from + count; ++i) check_ready(fs[std::size_t(i)], "WaitFor (true)", i);
      } else {
        t.expired();
        if (ready) sim::probe("late_though_ready");
        for (int i = from; i < from + count; ++i) {
          auto& f = fs[std::size_t(i)];
          SIM_CHECK(f.Valid() && f.Ready() == (pr.started[i].get() != 0), "valid", "future %d is in another state after a timed-out wait", i);
        }
      }
      if (done == n) break;
      for (int k = 1 + int(sim::gen(2)); k-- > 0 && done < n; ++done) pr.set(backwards ? n - 1 - done : done);
    }
    Wait(fs.begin(), fs.end());
    stop.set(1);
    deliver_all(fs, pr, mode, slots, *e);
    fs.clear();
  }
  e = nullptr;
  ex.shutdown();
  judge(pr, mode, slots);
  check_no_live("after waiting");
}

// the completion races with the timeout of a single future again and again
void tight() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  Slots slots{kMax};
  Producers<P> pr{1 + int(sim::gen(3))};
  int mode[kMax];
  for (int i = 0; i < pr.n; ++i) mode[i] = int(sim::gen(mModesObserved));
  {
    std::vector<F> fs;
    for (int i = 0; i < pr.n; ++i) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      fs.push_back(std::move(f));
      pr.p[i].emplace(std::move(p));
      pr.owner[i] = 0;
      pr.sleep[i] = 0;
    }
    pr.threads = 1;
    Threads th;
    pr.go(th);
    const u64 ns = sim::gen(3) * 300;
    for (int k = 0;; ++k) {
      const u64 t0 = sim::now();
      bool ok = true;
      if (k == 10) {
        Wait(fs.begin(), fs.end());
      } else if (fs.size() == 1) {
        ok = WaitFor(std::chrono::nanoseconds(ns), fs[0]);
      } else if (fs.size() == 2) {
        ok = WaitFor(std::chrono::nanoseconds(ns), fs[0], fs[1]);
      } else {
        ok = WaitFor(std::chrono::nanoseconds(ns), fs.begin(), fs.end());
      }
      sim::scribble_stack();
      if (ok) break;
      SIM_CHECK(sim::now() >= t0 + ns, "early-timeout", "WaitFor returned false before its deadline");
    }
    for (int i = 0; i < pr.n; ++i) check_ready(fs[std::size_t(i)], "WaitFor (true)", i);
    deliver_all(fs, pr, mode, slots, *e);
    fs.clear();
  }
  e = nullptr;
  ex.shutdown();
  judge(pr, mode, slots);
  check_no_live("after waiting");
}

// futures of different types in one call
void mixed_types() {
  HostInt st0, st1, st2;
  int w0 = 0, w1 = 0, w2 = 0;
  Slots slots{3};
  Execs ex;
  auto e = ex.random(kLiveKinds);
  const Out o0 = random_out(true), o1 = random_out(true), o2 = random_out(true);
  const int m0 = int(sim::gen(mModesObserved)), m1 = int(sim::gen(mModesObserved)), m2 = int(sim::gen(mModesObserved));
  const u32 kind = sim::gen(4);
  {
    auto [f0, p0] = yaclib::MakeContract<void, yaclib::StopError>();
    auto [f1, p1] = yaclib::MakeContractOn<Val, Err>(*e);
    auto [f2, p2] = yaclib::MakeContract<MVal, Err>();
    Threads th;
    const int d0 = int(sim::gen(4)), d1 = int(sim::gen(4)), d2 = int(sim::gen(4));
    th.go([&, p0 = std::move(p0), p2 = std::move(p2)]() mutable {
      for (int i = 0; i < d0; ++i) sim::yield();
      w0 = 1;
      st0.set(1);
      fulfil<yaclib::Promise<void, yaclib::StopError>, void, yaclib::StopError>(std::move(p0), o0, 1);
      for (int i = 0; i < d2; ++i) sim::yield();
      w2 = 1;
      st2.set(1);
      fulfil<yaclib::Promise<MVal, Err>, MVal, Err>(std::move(p2), o2, 2);
    });
    th.go([&, p1 = std::move(p1)]() mutable {
      for (int i = 0; i < d1; ++i) sim::yield();
      w1 = 1;
      st1.set(1);
      fulfil<P, Val, Err>(std::move(p1), o1, 0);
    });
    Timed t;
    bool ok = true, two = false;
    switch (kind) {
      case 0:
        Wait(f0, f1, f2);
        break;
      case 1:
        ok = t.wait(f2, f0, f1);
        break;
      case 2:
        ok = t.wait(f1, f0);
        two = true;
        break;
      default:
        Wait<yaclib::detail::MutexEvent>(f1, f0);
        two = true;
        break;
    }
    sim::scribble_stack();
    if (ok) {
      check_ready(f0, "wait", 0);
      check_ready(f1, "wait", 1);
      if (!two) check_ready(f2, "wait", 2);
      SIM_CHECK(w0 == 1 && w1 == 1 && (two || w2 == 1), "lost-write", "a write made before fulfilment is not visible after the wait");
    } else {
      t.expired();
    }
    consume<yaclib::Future<void, yaclib::StopError>>(std::move(f0), m0, Watch{&slots, 0, &st0, &w0}, *e);
    consume<FO>(std::move(f1), m1, Watch{&slots, 1, &st1, &w1}, *e);
    consume<yaclib::Future<MVal, Err>>(std::move(f2), m2, Watch{&slots, 2, &st2, &w2}, *e);
  }
  e = nullptr;
  ex.shutdown();
  const Out want[3] = {expected<void, yaclib::StopError>(o0), expected<Val, Err>(o1), expected<MVal, Err>(o2)};
  for (int i = 0; i < 3; ++i) {
    SIM_CHECK(slots.count(i) == 1, "exactly-once", "future %d after waiting: delivered %d times", i, slots.count(i));
    SIM_CHECK(slots.last(i) == want[i], "intact", "future %d after waiting: set %c%d but observed %c%d", i, want[i].k, want[i].id, slots.last(i).k, slots.last(i).id);
  }
  check_no_live("after waiting");
}

// futures produced by executors, steps of chains being waited for
void running() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  const int n = int(amount(4, kMax));
  HostInt done[kMax];
  int plain[kMax] = {};
  u32 kind[kMax];
  for (int i = 0; i < n; ++i) kind[i] = sim::gen(3);
  {
    std::vector<FO> fs;
    for (int i = 0; i < n; ++i) {
      auto step = [&, i, t = Tok{i}]() -> Val {
        t.use();
        if (kind[i] == 2) sim::yield();
        plain[i] = 1;
        done[i].set(1);
        return Val{i + 1};
      };
      if (kind[i] == 0) {
        fs.push_back(yaclib::Run<Err>(*e, std::move(step)));
      } else {
        fs.push_back(yaclib::Run<Err>(*e, [] {}).Then(std::move(step)));
      }
    }
    bool ok = true;
    Timed t;
    if (sim::gen(2)) {
      ok = t.wait(fs.begin(), fs.end());
      if (!ok) t.expired();
    }
    sim::scribble_stack();
    if (ok) Wait(fs.begin(), fs.size());
    if (!ok) Wait(fs.begin(), fs.end());
    for (int i = 0; i < n; ++i) {
      check_ready(fs[std::size_t(i)], "Wait", i);
      SIM_CHECK(done[i].get() && plain[i] == 1, "early", "Wait returned before step %d ran", i);
      SIM_CHECK(out(std::as_const(fs[std::size_t(i)]).Touch()) == value(i + 1), "intact", "wrong value of step %d", i);
    }
  }
  e = nullptr;
  ex.shutdown();
  check_no_live("after waiting");
}

sim::Workload a{"c11/unique", "C11", unique<F>, sim::kAll, 5};
sim::Workload b{"c11/unique_on", "C11", unique<FO>, sim::kAll, 1};
sim::Workload g{"c11/by_hand", "C11", by_hand<F>, sim::kAll, 2};
sim::Workload h{"c11/by_hand_on", "C11", by_hand<FO>, sim::kAll, 1};
sim::Workload c{"c11/tight", "C11", tight, sim::kAll, 4};
sim::Workload d{"c11/mixed_types", "C11", mixed_types, sim::kAll, 2};
sim::Workload f{"c11/running", "C11", running, sim::kAll, 1};
}  // namespace
