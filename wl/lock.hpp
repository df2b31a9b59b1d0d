// Shared by the coroutine Mutex and SharedMutex workloads.
#pragma once
#include "consume.hpp"

#include <yaclib/coro/await.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>

#include <memory>

namespace kit {

// One request for a lock: the interval in which it arrived, and the position of its grant.
struct Req {
  u64 inv = 0, ret = 0;
  bool waited = false;
  int grant = -1;
  bool excl = true;
};
class LockLedger {  // host side
 public:
  explicit LockLedger(int cap) : _cap{cap} {
    sim::HostScope h;
    _r = new Req[std::size_t(cap)];
  }
  ~LockLedger() {
    sim::HostScope h;
    delete[] _r;
  }
  int arrive(bool excl) {
    sim::HostScope h;
    SIM_CHECK(_n < _cap, "harness", "ledger overflow");
    _r[_n].inv = sim::steps();
    _r[_n].excl = excl;
    return _n++;
  }
  void queued(int id) {
    sim::HostScope h;
    _r[id].ret = sim::steps();
    _r[id].waited = true;
  }
  void granted(int id) {
    sim::HostScope h;
    SIM_CHECK(_r[id].grant < 0, "granted-twice", "request %d is granted twice", id);
    _r[id].grant = _grants++;
  }
  int requests() const { return _n; }
  int grants() const { return _grants; }
  const Req& at(int id) const { return _r[id]; }

 private:
  Req* _r;
  int _n = 0, _cap, _grants = 0;
};

// Forwards to the library's awaiter and records when the request arrived.
template <typename A>
struct Arrive {
  A a;
  LockLedger* led;
  int id;
  bool await_ready() noexcept { return a.await_ready(); }
  template <typename Promise>
  bool await_suspend(std::coroutine_handle<Promise> h) noexcept {
    LockLedger* l = led;
    const int i = id;
    const bool r = a.await_suspend(h);
    if (r) l->queued(i);  // the frame may be gone already
    return r;
  }
  decltype(auto) await_resume() noexcept {
    led->granted(id);
    return a.await_resume();
  }
};

// The protected state: host side overlap counters and plain memory.
struct Room {
  HostInt writers, readers, entered_w, entered_r;
  int a = 0, b = 0;  // plain: protected by the lock
  void enter_w() {
    const int w = writers.add(1);
    SIM_CHECK(w == 1 && readers.get() == 0, "overlap", "a writer entered while %d other writer(s) and %d reader(s) are inside", w - 1, readers.get());
    entered_w.add(1);
    SIM_CHECK(a == b, "torn", "the protected data is inconsistent: %d %d", a, b);
    ++a;
  }
  void leave_w() {
    ++b;
    SIM_CHECK(writers.get() == 1 && readers.get() == 0, "overlap", "%d writers and %d readers inside when a writer leaves", writers.get(), readers.get());
    writers.add(-1);
  }
  void enter_r() {
    readers.add(1);
    SIM_CHECK(writers.get() == 0, "overlap", "a reader entered while a writer is inside");
    entered_r.add(1);
    SIM_CHECK(a == b, "torn", "the protected data is inconsistent: %d %d", a, b);
  }
  void leave_r() {
    SIM_CHECK(writers.get() == 0, "overlap", "a writer is inside when a reader leaves");
    SIM_CHECK(a == b, "torn", "the protected data is inconsistent: %d %d", a, b);
    readers.add(-1);
  }
};

// A guard that owns m changes hands and comes back.
template <typename G, typename M>
void pass_around(G& g, M& m, u32 how) {
  auto owns = [&m](const G& x, const G& y) {
    SIM_CHECK(x.OwnsLock() && x.Mutex() == &m, "guard", "a guard does not own the lock that was moved into it");
    SIM_CHECK(!y.OwnsLock(), "guard", "a guard owns the lock that was moved out of it");
  };
  switch (how % 5) {
    case 0: {
      G h{m, std::defer_lock};
      h = std::move(g);
      owns(h, g);
      g = std::move(h);
      owns(g, h);
      break;
    }
    case 1: {
      G h{m, std::defer_lock};
      h.Swap(g);
      owns(h, g);
      g.Swap(h);
      owns(g, h);
      break;
    }
    case 2: {
      G h{std::move(g)};
      owns(h, g);
      g = std::move(h);
      owns(g, h);
      break;
    }
    default:
      break;
  }
}
}  // namespace kit
