// C14 workloads for one instantiation of Mutex.
#pragma once
#include "lock.hpp"

#include <yaclib/coro/mutex.hpp>

namespace {
using namespace kit;

enum LockHow : u32 { hLock, hGuard, hSticky, hTry, hTryGuard, hDefer, hLocks };
enum UnlockHow : u32 { uAwait, uOn, uHere, uScope, uRelease, uUnlocks };
struct Round {
  u32 lock, unlock, inside, exec, outside;
};
struct Script {
  int n = 0;
  Round r[3];
  int exec = 0;
};

template <bool B, bool FIFO>
struct World {
  using M = yaclib::Mutex<B, FIFO>;
  Execs ex;
  std::vector<ProxyPtr> e;
  Room room;
  LockLedger led{160};
  std::unique_ptr<M> m = std::make_unique<M>();
  HostInt tried, got;
};

template <bool B, bool F>
void on_tag(World<B, F>& w, int exec, const char* what) {
  SIM_CHECK(top_tag() == w.e[std::size_t(exec)]->tag(), "where", "after %s the coroutine runs in executor %s instead of %s", what, w.ex.name(top_tag()), w.ex.name(w.e[std::size_t(exec)]->tag()));
}

// what happens inside a critical section that may suspend
#define INSIDE(how, w, exec)                       \
  switch (how) {                                   \
    case 1:                                        \
      sim::yield();                                \
      break;                                       \
    case 2:                                        \
      co_await yaclib::kYield;                     \
      break;                                       \
    case 3:                                        \
      co_await On(*(w).e[std::size_t(exec)]);      \
      break;                                       \
    case 4:                                        \
      for (int q = 0; q < 4; ++q) sim::yield();    \
      break;                                       \
    default:                                       \
      break;                                       \
  }

template <bool B, bool FIFO>
yaclib::Future<int, Err> worker(World<B, FIFO>& w, const Script* s, Tok t) {
  using M = yaclib::Mutex<B, FIFO>;
  M& m = *w.m;
  co_await On(*w.e[std::size_t(s->exec)]);
  int grants = 0;
  yaclib::UniqueGuard<M> kept{m, std::defer_lock};  // locks and unlocks by hand, round after round
  for (int i = 0; i < s->n; ++i) {
    const Round& r = s->r[i];
    Tok local{i};
    INSIDE(r.outside, w, r.exec);
    int exec = -1;  // where to be after UnlockOn
    const char* what = "";
    switch (r.lock) {
      case hLock: {
        co_await Arrive<decltype(m.Lock())>{m.Lock(), &w.led, w.led.arrive(true)};
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        if (r.unlock == uOn) {
          exec = int(r.exec);
          what = "UnlockOn";
          co_await m.UnlockOn(*w.e[r.exec]);
        } else if (r.unlock == uHere) {
          m.UnlockHere();
        } else {
          co_await m.Unlock();
        }
        break;
      }
      case hGuard: {
        auto g = co_await Arrive<decltype(m.Guard())>{m.Guard(), &w.led, w.led.arrive(true)};
        SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the guard does not own the lock it was granted");
        pass_around(g, m, r.outside);
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        switch (r.unlock) {
          case uAwait:
            co_await g.Unlock();
            break;
          case uOn:
            exec = int(r.exec);
            what = "guard.UnlockOn";
            co_await g.UnlockOn(*w.e[r.exec]);
            break;
          case uHere:
            g.UnlockHere();
            SIM_CHECK(!g.OwnsLock(), "guard", "the guard owns a lock after UnlockHere");
            break;
          case uRelease: {
            auto* p = g.Release();
            SIM_CHECK(p == &m && !g, "guard", "Release did not give the mutex back");
            co_await p->Unlock();
            break;
          }
          default: {
            auto h = std::move(g);
            SIM_CHECK(h.OwnsLock() && !g.OwnsLock(), "guard", "a moved guard does not own the lock");
            break;
          }
        }
        break;
      }
      case hSticky: {
        auto& own = co_await yaclib::CurrentExecutor();
        auto g = co_await Arrive<decltype(m.GuardSticky())>{m.GuardSticky(), &w.led, w.led.arrive(true)};
        SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the sticky guard does not own the lock it was granted");
        pass_around(g, m, r.outside);
        w.room.enter_w();
        if (r.inside != 3) INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        switch (r.unlock) {
          case uOn:
            exec = int(r.exec);
            what = "sticky.UnlockOn";
            co_await g.UnlockOn(*w.e[r.exec]);
            break;
          case uHere:
            g.UnlockHere();
            break;
          case uScope: {
            auto h = std::move(g);
            break;
          }
          case uRelease:
            co_await g.Unlock();
            // once more by hand
            {
              auto& again = co_await yaclib::CurrentExecutor();
              SIM_CHECK(&again == &own, "where", "after a sticky Unlock the coroutine is not in its own executor");
              const int id = w.led.arrive(true);
              co_await Arrive<decltype(g.Lock())>{g.Lock(), &w.led, id};
              w.room.enter_w();
              w.room.leave_w();
              ++grants;
              co_await g.Unlock();
              SIM_CHECK(&co_await yaclib::CurrentExecutor() == &own, "where", "after a second sticky Unlock the coroutine is not in its own executor");
            }
            break;
          default:
            if (r.outside % 3 == 1) {
              decltype(g) h{m, std::defer_lock};
              h = std::move(g);
              co_await h.Unlock();
            } else if (r.outside % 3 == 2) {
              decltype(g) h{std::move(g)};
              co_await h.Unlock();
            } else {
              co_await g.Unlock();
            }
            SIM_CHECK(&co_await yaclib::CurrentExecutor() == &own, "where", "after a sticky Unlock the coroutine is not in its own executor");
            break;
        }
        break;
      }
      case hTry: {
        w.tried.add(1);
        if (!m.TryLock()) continue;
        w.got.add(1);
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        if (r.unlock == uScope || r.unlock == uRelease) {
          yaclib::UniqueGuard<M> g{m, std::adopt_lock};
          SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the guard does not own the lock it adopted");
          pass_around(g, m, r.outside);
          if (r.unlock == uRelease) co_await g.Unlock();
          break;
        }
        if (r.unlock == uOn) {
          exec = int(r.exec);
          what = "UnlockOn";
          co_await m.UnlockOn(*w.e[r.exec]);
        } else if (r.unlock == uHere) {
          m.UnlockHere();
        } else {
          co_await m.Unlock();
        }
        break;
      }
      case hTryGuard: {
        w.tried.add(1);
        auto g = m.TryGuard();
        if (!g) continue;
        pass_around(g, m, r.outside);
        w.got.add(1);
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        if (r.unlock == uAwait) co_await g.Unlock();
        if (r.unlock == uHere) g.UnlockHere();
        break;
      }
      default: {  // a guard without the lock, which locks and unlocks by hand
        yaclib::UniqueGuard<M>& g = kept;
        SIM_CHECK(!g.OwnsLock() && g.Mutex() == &m, "guard", "a deferred guard owns the lock");
        if (r.unlock % 2) {
          w.tried.add(1);
          if (!g.TryLock()) {
            SIM_CHECK(!g.OwnsLock(), "guard", "a guard owns the lock after a failed TryLock");
            continue;
          }
          w.got.add(1);
        } else {
          co_await Arrive<decltype(g.Lock())>{g.Lock(), &w.led, w.led.arrive(true)};
        }
        SIM_CHECK(g.OwnsLock(), "guard", "a guard does not own the lock after Lock");
        pass_around(g, m, r.outside);
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        if (r.unlock == uRelease) {
          yaclib::UniqueGuard<M> h{*g.Release(), std::adopt_lock};
          g.Swap(h);
        }
        if (r.unlock == uHere) {
          g.UnlockHere();
        } else if (r.unlock == uOn) {
          exec = int(r.exec);
          what = "guard.UnlockOn";
          co_await g.UnlockOn(*w.e[r.exec]);
        } else {
          co_await g.Unlock();
        }
        SIM_CHECK(!g.OwnsLock() && g.Mutex() == &m, "guard", "a guard owns the lock after Unlock");
        break;
      }
    }
    ++grants;
    // the coroutine runs where it believes to run
    auto& cur = co_await yaclib::CurrentExecutor();
    if (exec >= 0) on_tag(w, exec, what);
    if (exec >= 0) SIM_CHECK(&cur == w.e[std::size_t(exec)].Get(), "where", "after %s the coroutine believes to be in another executor", what);
    SIM_CHECK(top_tag() >= 0 && w.ex.proxy(top_tag()) == &cur, "where", "the coroutine runs in executor %s but its executor is another one", w.ex.name(top_tag()));
    local.use();
  }
  t.use();
  co_return grants;
}

template <bool B, bool FIFO>
void world(int max_workers, u32 kinds, bool plain) {
  {
    World<B, FIFO> w;
    const int execs = 1 + int(sim::gen(3));
    for (int i = 0; i < execs; ++i) w.e.push_back(w.ex.random(kinds));
    const int n = 1 + int(amount(u32(max_workers - 1), 18));
    std::vector<Script> s(std::size_t(n), Script{});
    const u32 only = sim::gen(4) ? ~0u : sim::gen(hLocks);
    const u32 onlyu = sim::gen(4) ? ~0u : sim::gen(uUnlocks);
    for (auto& x : s) {
      x.n = 1 + int(sim::gen(3));
      x.exec = int(sim::gen(u32(execs)));
      for (int i = 0; i < x.n; ++i) {
        x.r[i] = {sim::gen(hLocks), sim::gen(uUnlocks), sim::gen(6), sim::gen(u32(execs)), sim::gen(8)};
        if (only != ~0u) x.r[i].lock = only;
        if (onlyu != ~0u) x.r[i].unlock = onlyu;
      }
    }
    const bool threads = sim::gen(2);
    HostInt plain_grants;
    {
      std::vector<yaclib::Future<int, Err>> fs;
      fs.resize(std::size_t(n));
      Threads th;
      for (int i = 0; i < n; ++i) {
        if (threads && i > 0) {
          th.go([&, i] { fs[std::size_t(i)] = worker<B, FIFO>(w, &s[std::size_t(i)], Tok{i}); });
        } else {
          fs[std::size_t(i)] = worker<B, FIFO>(w, &s[std::size_t(i)], Tok{i});
        }
      }
      if (plain) {  // a thread without a coroutine: TryLock / UnlockHere
        th.go([&] {
          for (int i = 0; i < 3; ++i) {
            if (w.m->TryLock()) {
              plain_grants.add(1);
              w.room.enter_w();
              sim::yield();
              w.room.leave_w();
              w.m->UnlockHere();
            }
            sim::yield();
          }
        });
      }
      th.join();
      int total = plain_grants.get();
      for (auto& f : fs) {
        auto r = std::move(f).Get();
        SIM_CHECK(r.State() == yaclib::ResultState::Value, "final", "a coroutine failed");
        total += std::as_const(r).Value();
      }
      SIM_CHECK(w.room.entered_w.get() == total, "count", "%d critical sections were entered, %d finished", w.room.entered_w.get(), total);
      SIM_CHECK(w.led.requests() == w.led.grants(), "not-granted", "%d requests, %d grants", w.led.requests(), w.led.grants());
      SIM_CHECK(w.room.a == w.room.b && w.room.a == w.room.entered_w.get(), "lost-write", "the protected counter is %d %d after %d critical sections", w.room.a, w.room.b, w.room.entered_w.get());
      if (sim::gen(2)) {
        SIM_CHECK(w.m->TryLock(), "not-free", "the mutex is not free although every holder released it");
        w.m->UnlockHere();
      }
    }
    w.m.reset();  // every coroutine has finished, so nobody may touch the mutex any more
    if constexpr (FIFO) {
      for (int i = 0; i < w.led.requests(); ++i) {
        for (int j = 0; j < w.led.requests(); ++j) {
          const Req &a = w.led.at(i), &b = w.led.at(j);
          if (a.waited && a.ret < b.inv) SIM_CHECK(a.grant < b.grant, "fifo", "request %d arrived before request %d but was granted after it", i, j);
        }
      }
    }
    w.e.clear();
    w.ex.shutdown();
  }
  check_no_live("after the coroutines");
}

// everybody wants the mutex at once on one worker thread; a hold spans suspensions
template <bool B, bool FIFO>
void single() {
  world<B, FIFO>(6, bit(xPool1), false);
}
template <bool B, bool FIFO>
void mixed() {
  world<B, FIFO>(4, kLiveKinds, sim::gen(2));
}

template <bool B, bool FIFO>
void arrival() {  // a burst of waiters behind one holder: grant order, hand-over, batches
  {
    World<B, FIFO> w;
    const int execs = 1 + int(sim::gen(2));
    for (int i = 0; i < execs; ++i) w.e.push_back(w.ex.random(kThreaded));
    const int n = 2 + int(amount(5, 30));
    Script s[32];
    for (int i = 0; i < n; ++i) {
      s[i].n = 1;
      s[i].exec = int(sim::gen(u32(execs)));
      s[i].r[0] = {sim::gen(3), sim::gen(uUnlocks), sim::gen(5), sim::gen(u32(execs)), sim::gen(3)};
      if (i == 0) s[i].r[0] = {hLock, uAwait, 4, 0, 0};
    }
    {
      std::vector<yaclib::Future<int, Err>> fs;
      for (int i = 0; i < n; ++i) fs.push_back(worker<B, FIFO>(w, &s[i], Tok{i}));
      for (auto& f : fs) (void)std::move(f).Get();
      SIM_CHECK(w.led.requests() == w.led.grants(), "not-granted", "%d requests, %d grants", w.led.requests(), w.led.grants());
    }
    w.m.reset();
    if constexpr (FIFO) {
      for (int i = 0; i < w.led.requests(); ++i) {
        for (int j = 0; j < w.led.requests(); ++j) {
          const Req &a = w.led.at(i), &b = w.led.at(j);
          if (a.waited && a.ret < b.inv) SIM_CHECK(a.grant < b.grant, "fifo", "request %d arrived before request %d but was granted after it", i, j);
        }
      }
    }
    w.e.clear();
    w.ex.shutdown();
  }
  check_no_live("after the coroutines");
}

// Executors owned by nobody but the coroutines that run in them. Nothing but the grants, the room and "a sticky guard
// brings the coroutine back" is judged here; a use of an executor that is gone is the simulator's to see.
template <bool B, bool FIFO>
yaclib::Future<int, Err> owner(World<B, FIFO>& w, yaclib::IExecutorPtr e, const Script* s, Tok t) {
  using M = yaclib::Mutex<B, FIFO>;
  M& m = *w.m;
  co_await On(*e);
  e = nullptr;
  int grants = 0;
  yaclib::StickyGuard<M> g{m, std::defer_lock};
  for (int i = 0; i < s->n; ++i) {
    const Round& r = s->r[i];
    if (r.outside == 1) {
      auto next = yaclib::MakeStrand(w.e[r.exec]);
      co_await On(*next);
    } else if (r.outside == 2) {
      co_await yaclib::kYield;
    }
    auto& own = co_await yaclib::CurrentExecutor();
    const void* const was = &own;
    switch (r.lock) {
      case 0:
        co_await Arrive<decltype(m.Lock())>{m.Lock(), &w.led, w.led.arrive(true)};
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        co_await m.Unlock();
        break;
      case 1: {
        auto h = co_await Arrive<decltype(m.Guard())>{m.Guard(), &w.led, w.led.arrive(true)};
        w.room.enter_w();
        INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        if (r.unlock == 1) co_await h.UnlockOn(*yaclib::MakeStrand(w.e[r.exec]));
        if (r.unlock == 2) co_await h.Unlock();
        break;
      }
      default: {  // the same sticky guard round after round
        if (r.lock == 3) {
          w.tried.add(1);
          if (!g.TryLock()) continue;
          w.got.add(1);
        } else if (r.lock == 4) {
          g = co_await Arrive<decltype(m.GuardSticky())>{m.GuardSticky(), &w.led, w.led.arrive(true)};
        } else {
          co_await Arrive<decltype(g.Lock())>{g.Lock(), &w.led, w.led.arrive(true)};
        }
        SIM_CHECK(g.OwnsLock() && g.Mutex() == &m, "guard", "the sticky guard does not own the lock it was granted");
        w.room.enter_w();
        if (r.inside != 3) INSIDE(r.inside, w, r.exec);
        w.room.leave_w();
        switch (r.unlock) {
          case 0:
            g.UnlockHere();
            break;
          case 1: {
            auto next = yaclib::MakeStrand(w.e[r.exec]);
            const void* const to = next.Get();
            co_await g.UnlockOn(*next);
            SIM_CHECK(&co_await yaclib::CurrentExecutor() == to, "where", "after a sticky UnlockOn the coroutine believes to be in another executor");
            break;
          }
          case 2: {
            auto h = std::move(g);
            co_await h.Unlock();
            SIM_CHECK(&co_await yaclib::CurrentExecutor() == was, "where", "after a sticky Unlock the coroutine is not in its own executor");
            g = std::move(h);
            break;
          }
          default:
            co_await g.Unlock();
            SIM_CHECK(&co_await yaclib::CurrentExecutor() == was, "where", "after a sticky Unlock the coroutine is not in its own executor");
            break;
        }
        SIM_CHECK(!g.OwnsLock(), "guard", "a sticky guard owns the lock after Unlock");
        if (g.Mutex() == nullptr) g = yaclib::StickyGuard<M>{m, std::defer_lock};
        break;
      }
    }
    ++grants;
  }
  t.use();
  co_return grants;
}

template <bool B, bool FIFO>
void owned() {
  {
    World<B, FIFO> w;
    const int execs = 1 + int(sim::gen(2));
    for (int i = 0; i < execs; ++i) w.e.push_back(w.ex.random(kThreaded));
    const int n = 1 + int(amount(3, 8));
    std::vector<Script> s(std::size_t(n), Script{});
    const bool sticky = sim::gen(2);
    for (auto& x : s) {
      x.n = 1 + int(sim::gen(3));
      for (int i = 0; i < x.n; ++i) x.r[i] = {sticky ? 2 + sim::gen(3) : sim::gen(5), sim::gen(4), sim::gen(6), sim::gen(u32(execs)), sim::gen(4)};
    }
    {
      std::vector<yaclib::Future<int, Err>> fs;
      for (int i = 0; i < n; ++i) fs.push_back(owner<B, FIFO>(w, yaclib::MakeStrand(w.e[sim::gen(u32(execs))]), &s[std::size_t(i)], Tok{i}));
      int total = 0;
      for (auto& f : fs) {
        auto r = std::move(f).Get();
        SIM_CHECK(r.State() == yaclib::ResultState::Value, "final", "a coroutine failed");
        total += std::as_const(r).Value();
      }
      SIM_CHECK(w.room.entered_w.get() == total, "count", "%d critical sections were entered, %d finished", w.room.entered_w.get(), total);
      SIM_CHECK(w.led.requests() == w.led.grants(), "not-granted", "%d requests, %d grants", w.led.requests(), w.led.grants());
      SIM_CHECK(w.room.a == w.room.b && w.room.a == w.room.entered_w.get(), "lost-write", "the protected counter is %d %d after %d critical sections", w.room.a, w.room.b, w.room.entered_w.get());
    }
    w.m.reset();
    w.e.clear();
    w.ex.shutdown();
  }
  check_no_live("after the coroutines");
}
}  // namespace
