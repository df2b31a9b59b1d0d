// C20: how many blocks the library takes from the heap.
#pragma once
#include "consume.hpp"
#include "jobs.hpp"

#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

#include <array>

namespace c20 {
using namespace kit;

struct E0 {  // no heap of its own
  int c = 0;
  explicit E0(int x) : c{x} {}
  E0(yaclib::StopTag) : c{-1} {}
  static const char* What() noexcept { return "E0"; }
};
using R = yaclib::Result<int, E0>;
using F = yaclib::Future<int, E0>;
using FO = yaclib::FutureOn<int, E0>;
using T = yaclib::Task<int, E0>;
using SF = yaclib::SharedFuture<int, E0>;
using P = yaclib::Promise<int, E0>;
using SP = yaclib::SharedPromise<int, E0>;

inline R outcome(u32 k) {
  switch (k) {
    case 0:
    case 1:
      return R{1};
    case 2:
      return R{E0{2}};
    default: {
      sim::HostScope h;  // the exception object is the client's
      return R{std::make_exception_ptr(3)};
    }
  }
}

// Fulfils promises on another thread without touching the heap.
class Hand {
 public:
  Hand();
  ~Hand() { close(); }
  void give(P&& p, u32 k, u32 after = 0);
  void give(SP&& p, u32 k, u32 after = 0);
  void close();

 private:
  struct Item {
    P p;
    SP s;
    u32 k = 0, after = 0;
  };
  std::mutex _m;
  std::condition_variable _cv;
  std::array<Item, 96> _q;
  std::size_t _in = 0, _out = 0;
  bool _closing = false;
  std::thread _t;
};

// Everything that exists before measuring starts
struct World {
  Execs ex;
  std::vector<ProxyPtr> e;
  Hand hand;
  HostInt budget;       // blocks the client's program is entitled to
  HostInt pending;      // callbacks that must still be destroyed
  u64 base = 0;
  explicit World(u32 mask = kLiveKinds | bit(xStoppedInline));
  void begin() { base = sim::alloc_total(); }
  u64 used() const { return sim::alloc_total() - base; }
  void allow(int n) { budget.add(n); }
  void check(const char* what) const {
    const u64 u = used(), b = u64(budget.get());
    SIM_CHECK(u <= b, "allocations", "%s: %llu blocks allocated, at most %llu expected", what, (unsigned long long)u, (unsigned long long)b);
  }
  void finish();  // everything submitted has ended
};

// a capture; pending counts the ones alive, so that the end of the program can be seen without the heap
struct Cap {
  World* w;
  explicit Cap(World& x) : w{&x} { w->pending.add(1); }
  Cap(Cap&& o) noexcept : w{o.w} { w->pending.add(1); }
  Cap(const Cap& o) : w{o.w} { w->pending.add(1); }
  ~Cap() { w->pending.add(-1); }
};
template <int N>
struct Fat : Cap {
  alignas(N >= 64 ? 64 : 8) char body[N] = {};
  explicit Fat(World& x) : Cap{x} {}
};

enum Ret : u32 { nInt, nResult, nThrow, nReady, nPending, nRun, nShared, nTask, nSchedule, nCoro, nRets };
struct Step {
  u32 attach = 0, exec = 0, arg = 0, ret = 0, k = 0, id = 0;
};
F inner_coro(World& w, yaclib::IExecutor& e, u32 k, Cap c);

// attach one step to a Future / FutureOn / Task; each takes at most one block
F step(F f, const Step& s, World& w);
FO step(FO f, const Step& s, World& w);
T step(T f, const Step& s, World& w);
FO step_on(F f, const Step& s, World& w);  // Then(e)
Step random_step(World& w, u32 id);
std::string describe(const Step& s);
}  // namespace c20
