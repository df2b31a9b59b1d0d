// C15 workloads for one instantiation of SharedMutex.
#pragma once
#include "lock.hpp"

#include <yaclib/coro/shared_mutex.hpp>

namespace {
using namespace kit;

enum How : u32 { hLock, hGuard, hLockShared, hGuardShared, hLockShared2, hGuardShared2, hTry, hTryGuard, hTryShared, hTryGuardShared, hDefer, hDeferShared, hHows };
struct Round {
  u32 how, unlock, inside, outside, exec;
};
struct Script {
  int n = 0;
  Round r[3];
  int exec = 0;
};

template <bool F, bool R>
struct World {
  using M = yaclib::SharedMutex<F, R>;
  Execs ex;
  std::vector<ProxyPtr> e;
  Room room;
  LockLedger led{160};
  std::unique_ptr<M> m = std::make_unique<M>();
};

#define INSIDE(how, w, exec)                       \
  switch (how) {                                   \
    case 1:                                        \
      sim::yield();                                \
      break;                                       \
    case 2:                                        \
      co_await yaclib::kYield;                     \
      break;                                       \
    case 3:                                        \
      co_await On(*(w).e[std::size_t(exec)]);      \
      break;                                       \
    case 4:                                        \
      for (int q = 0; q < 4; ++q) sim::yield();    \
      break;                                       \
    default:                                       \
      break;                                       \
  }
#define SECTION(w, r, wr)            \
  do {                               \
    if (wr) {                        \
      (w).room.enter_w();            \
      INSIDE((r).inside, w, (r).exec) \
      (w).room.leave_w();            \
    } else {                         \
      (w).room.enter_r();            \
      INSIDE((r).inside, w, (r).exec) \
      (w).room.leave_r();            \
    }                                \
  } while (0)

template <bool F, bool S>
yaclib::Future<int, Err> worker(World<F, S>& w, const Script* s, Tok t) {
  using M = yaclib::SharedMutex<F, S>;
  M& m = *w.m;
  co_await On(*w.e[std::size_t(s->exec)]);
  int grants = 0;
  yaclib::UniqueGuard<M> kept{m, std::defer_lock};  // these two lock and unlock by hand, round after round
  yaclib::SharedGuard<M> kept_shared{m, std::defer_lock};
  for (int i = 0; i < s->n; ++i) {
    const Round& r = s->r[i];
    Tok local{i};
    INSIDE(r.outside, w, r.exec)
    switch (r.how) {
      case hLock:
        co_await Arrive<decltype(m.Lock())>{m.Lock(), &w.led, w.led.arrive(true)};
        SECTION(w, r, true);
        m.UnlockHere();
        break;
      case hGuard: {
        auto g = co_await Arrive<decltype(m.Guard())>{m.Guard(), &w.led, w.led.arrive(true)};
        SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the guard does not own the lock it was granted");
        pass_around(g, m, r.outside);
        SECTION(w, r, true);
        if (r.unlock == 1) g.UnlockHere();
        if (r.unlock == 2) g.Release()->UnlockHere();
        break;
      }
      case hLockShared:
      case hLockShared2:
        co_await Arrive<decltype(m.LockShared())>{m.LockShared(), &w.led, w.led.arrive(false)};
        SECTION(w, r, false);
        m.UnlockHereShared();
        break;
      case hGuardShared:
      case hGuardShared2: {
        auto g = co_await Arrive<decltype(m.GuardShared())>{m.GuardShared(), &w.led, w.led.arrive(false)};
        SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the shared guard does not own the lock it was granted");
        pass_around(g, m, r.outside);
        SECTION(w, r, false);
        if (r.unlock == 1) g.UnlockHere();
        if (r.unlock == 2) g.Release()->UnlockHereShared();
        break;
      }
      case hTry:
        if (!m.TryLock()) continue;
        SECTION(w, r, true);
        if (r.unlock == 1) {
          yaclib::UniqueGuard<M> g{m, std::adopt_lock};
          SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the guard does not own the lock it adopted");
          pass_around(g, m, r.outside);
        } else {
          m.UnlockHere();
        }
        break;
      case hTryGuard: {
        auto g = m.TryGuard();
        if (!g) continue;
        pass_around(g, m, r.outside);
        SECTION(w, r, true);
        if (r.unlock == 1) g.UnlockHere();
        break;
      }
      case hTryShared:
        if (!m.TryLockShared()) continue;
        SECTION(w, r, false);
        if (r.unlock == 1) {
          yaclib::SharedGuard<M> g{m, std::adopt_lock};
          SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the shared guard does not own the lock it adopted");
          pass_around(g, m, r.outside);
        } else {
          m.UnlockHereShared();
        }
        break;
      case hTryGuardShared: {
        auto g = m.TryGuardShared();
        if (!g) continue;
        pass_around(g, m, r.outside);
        SECTION(w, r, false);
        if (r.unlock == 1) g.UnlockHere();
        break;
      }
      case hDefer: {
        yaclib::UniqueGuard<M>& g = kept;
        if (r.unlock == 0) {
          if (!g.TryLock()) {
            SIM_CHECK(!g.OwnsLock(), "guard", "a guard owns the lock after a failed TryLock");
            continue;
          }
        } else {
          co_await Arrive<decltype(g.Lock())>{g.Lock(), &w.led, w.led.arrive(true)};
        }
        SIM_CHECK(g.OwnsLock(), "guard", "a guard does not own the lock after Lock");
        pass_around(g, m, r.outside);
        SECTION(w, r, true);
        if (r.unlock == 3) {
          yaclib::UniqueGuard<M> h{*g.Release(), std::adopt_lock};
          g.Swap(h);
        }
        g.UnlockHere();
        SIM_CHECK(!g.OwnsLock() && g.Mutex() == &m, "guard", "a guard owns the lock after UnlockHere");
        break;
      }
      default: {
        yaclib::SharedGuard<M>& g = kept_shared;
        if (r.unlock == 0) {
          if (!g.TryLock()) {
            SIM_CHECK(!g.OwnsLock(), "guard", "a shared guard owns the lock after a failed TryLock");
            continue;
          }
        } else {
          co_await Arrive<decltype(g.Lock())>{g.Lock(), &w.led, w.led.arrive(false)};
        }
        SIM_CHECK(g.OwnsLock(), "guard", "a guard does not own the lock after Lock");
        pass_around(g, m, r.outside);
        SECTION(w, r, false);
        if (r.unlock == 3) {
          yaclib::SharedGuard<M> h{*g.Release(), std::adopt_lock};
          g.Swap(h);
        }
        g.UnlockHere();
        SIM_CHECK(!g.OwnsLock() && g.Mutex() == &m, "guard", "a shared guard owns the lock after UnlockHere");
        break;
      }
    }
    ++grants;
    SIM_CHECK(top_tag() >= 0 && w.ex.proxy(top_tag()) == &co_await yaclib::CurrentExecutor(), "where", "the coroutine runs in executor %s but its executor is another one", w.ex.name(top_tag()));
    local.use();
  }
  t.use();
  co_return grants;
}

template <bool F, bool S>
void world(int max_workers, u32 kinds, bool plain) {
  {
    World<F, S> w;
    const int execs = 1 + int(sim::gen(3));
    for (int i = 0; i < execs; ++i) w.e.push_back(w.ex.random(kinds));
    const int n = 1 + int(amount(u32(max_workers - 1), 18));
    std::vector<Script> s(std::size_t(n), Script{});
    // swarm: all forms, writers only, mostly readers, only waiting forms, one form per worker
    const u32 mix = sim::gen(6);
    static const u32 kWaiting[] = {hLock, hGuard, hLockShared, hGuardShared};
    static const u32 kReaders[] = {hLockShared, hGuardShared, hTryShared, hLockShared, hLock};
    for (auto& x : s) {
      x.n = 1 + int(sim::gen(3));
      x.exec = int(sim::gen(u32(execs)));
      const u32 own = sim::gen(hHows);
      for (int i = 0; i < x.n; ++i) {
        x.r[i] = {sim::gen(hHows), sim::gen(4), sim::gen(6), sim::gen(8), sim::gen(u32(execs))};
        if (mix == 1) x.r[i].how = sim::gen(2);
        if (mix == 2) x.r[i].how = kReaders[sim::gen(5)];
        if (mix == 3) x.r[i].how = kWaiting[sim::gen(4)];
        if (mix == 4) x.r[i].how = own;
      }
    }
    const bool threads = sim::gen(2);
    HostInt plain_grants;
    {
      std::vector<yaclib::Future<int, Err>> fs;
      fs.resize(std::size_t(n));
      Threads th;
      for (int i = 0; i < n; ++i) {
        if (threads && i > 0) {
          th.go([&, i] { fs[std::size_t(i)] = worker<F, S>(w, &s[std::size_t(i)], Tok{i}); });
        } else {
          fs[std::size_t(i)] = worker<F, S>(w, &s[std::size_t(i)], Tok{i});
        }
      }
      if (plain) {
        th.go([&] {
          for (int i = 0; i < 3; ++i) {
            if (i % 2 ? w.m->TryLock() : w.m->TryLockShared()) {
              plain_grants.add(1);
              if (i % 2) {
                w.room.enter_w();
                sim::yield();
                w.room.leave_w();
                w.m->UnlockHere();
              } else {
                w.room.enter_r();
                sim::yield();
                w.room.leave_r();
                w.m->UnlockHereShared();
              }
            }
            sim::yield();
          }
        });
      }
      th.join();
      int total = plain_grants.get();
      for (auto& f : fs) {
        auto r = std::move(f).Get();
        SIM_CHECK(r.State() == yaclib::ResultState::Value, "final", "a coroutine failed");
        total += std::as_const(r).Value();
      }
      SIM_CHECK(w.room.entered_w.get() + w.room.entered_r.get() == total, "count", "%d + %d critical sections were entered, %d finished", w.room.entered_w.get(), w.room.entered_r.get(), total);
      SIM_CHECK(w.led.requests() == w.led.grants(), "not-granted", "%d requests, %d grants", w.led.requests(), w.led.grants());
      SIM_CHECK(w.room.a == w.room.b && w.room.a == w.room.entered_w.get(), "lost-write", "the protected counter is %d %d after %d exclusive sections", w.room.a, w.room.b, w.room.entered_w.get());
      // it is free again: nothing is left of anybody
      const u32 probe = sim::gen(4);
      if (probe == 1) {
        SIM_CHECK(w.m->TryLock(), "not-free", "the mutex is not free although every holder released it");
        SIM_CHECK(!w.m->TryLockShared() && !w.m->TryLock(), "overlap", "a Try form succeeded while a writer holds the mutex");
        w.m->UnlockHere();
      } else if (probe == 2) {
        SIM_CHECK(w.m->TryLockShared() && w.m->TryLockShared(), "not-free", "the mutex is not free although every holder released it");
        SIM_CHECK(!w.m->TryLock(), "overlap", "TryLock succeeded while readers hold the mutex");
        w.m->UnlockHereShared();
        SIM_CHECK(!w.m->TryLock(), "overlap", "TryLock succeeded while a reader holds the mutex");
        w.m->UnlockHereShared();
        SIM_CHECK(w.m->TryLock(), "not-free", "the mutex is not free although every reader released it");
        w.m->UnlockHere();
      } else if (probe == 3) {  // and it still works
        Script again;
        again.n = 2;
        again.r[0] = {hLock, 0, 0, 0, 0};
        again.r[1] = {hLockShared, 0, 0, 0, 0};
        auto r = worker<F, S>(w, &again, Tok{9}).Get();
        SIM_CHECK(std::as_const(r).Value() == 2, "final", "a coroutine failed");
      }
    }
    w.m.reset();  // every coroutine has finished, so nobody may touch the mutex any more
    w.e.clear();
    w.ex.shutdown();
  }
  check_no_live("after the coroutines");
}

template <bool F, bool S>
void mixed() {
  world<F, S>(5, kLiveKinds, sim::gen(2));
}
template <bool F, bool S>
void threaded() {
  world<F, S>(7, bit(xPool3) | bit(xPool2) | bit(xChaos), false);
}
template <bool F, bool S>
void single() {
  world<F, S>(6, bit(xPool1), false);
}
}  // namespace
