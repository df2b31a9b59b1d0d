// C03: everything is released exactly once. The generated pipelines of C02/C12 with owners that let go anywhere.
#pragma once
#include "chain.hpp"

#include <yaclib/async/share.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>

#include <memory>

namespace c03 {
using namespace kit;

// waits in virtual time (orders nothing) until every tracked object is gone
inline void released(const char* where) {
  for (int i = 0;; ++i) {
    if (live(tVal) == 0 && live(tTok) == 0 && live(tErr) == 0) return;
    SIM_CHECK(i < 120, "left-behind", "%s: %d values, %d captures, %d errors are never released", where, live(tVal), live(tTok), live(tErr));
    std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 10 ? i : 10)));
  }
}

// ... and until no job is left in an executor (one that holds no tracked object)
inline void idle(Proxy& e, const char* where) {
  for (int i = 0; e.submitted() != e.called() + e.dropped(); ++i) {
    SIM_CHECK(i < 120, "lost", "%s: a job of executor %d is neither called nor dropped", where, e.tag());
    std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 10 ? i : 10)));
  }
}

struct Accept {
  int a[3];
  Accept() {
    for (int& x : a) {
      const u32 k = sim::gen(4);
      x = k < 2 ? -1 : k == 2 ? 0 : 1 + int(sim::gen(3));
    }
  }
};
// a thread that stops the pools at some point
inline void stopper(Env& env, Threads& th) {
  if (sim::gen(3) != 0 || env.ex.pools() == 0) return;
  const int i = int(sim::gen(u32(env.ex.pools()))), how = int(sim::gen(3));
  const u32 wait = sim::gen(6);
  th.go([&env, i, how, wait] {
    for (u32 k = 0; k < wait; ++k) sim::yield();
    sim::count(sim::kStopExec);
    env.ex.stop_pool(i, how);
  });
}

enum End : u32 {
  eDrop, eGet, eDetach, eDetachInline, eDetachOn, eWaitDrop, eTimedDrop, eThreadDrop, eConnectNobody, eConnect, eConnectShared, eSplit, eSplitObserved,
  eCapturedDropped, eReturnedDropped, eAwaited, eAwaitedOn, eWhenAny, eWhenAll, eAttachDrop, eMoveAssign, eEnds
};
const char* end_name(u32 e);
// lets go of f in the chosen way (main thread); nothing is waited for unless the way waits
void let_go(F f, Env& env, u32 how, Threads& th);
void let_go(FO f, Env& env, u32 how, Threads& th);
}  // namespace c03
