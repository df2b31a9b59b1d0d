#include "c20.hpp"

#include <yaclib/async/join.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>

namespace c20 {

Hand::Hand() {
  _t = std::thread{[this] {
    std::unique_lock l{_m};
    for (;;) {
      while (_out != _in) {
        Item it = std::move(_q[_out++]);
        l.unlock();
        for (u32 i = 0; i < it.after; ++i) sim::yield();
        if (it.p.Valid()) {
          if (it.k != 4) std::move(it.p).Set(outcome(it.k));
        } else if (it.k != 4) {
          std::move(it.s).Set(outcome(it.k));
        }
        it.p = {};
        it.s = {};
        l.lock();
      }
      if (_closing) return;
      _cv.wait(l);
    }
  }};
}
void Hand::give(P&& p, u32 k, u32 after) {
  std::lock_guard l{_m};
  SIM_CHECK(_in < _q.size(), "harness", "too many promises");
  _q[_in].p = std::move(p);
  _q[_in].k = k;
  _q[_in++].after = after;
  _cv.notify_one();
}
void Hand::give(SP&& p, u32 k, u32 after) {
  std::lock_guard l{_m};
  SIM_CHECK(_in < _q.size(), "harness", "too many promises");
  _q[_in].s = std::move(p);
  _q[_in].k = k;
  _q[_in++].after = after;
  _cv.notify_one();
}
void Hand::close() {
  if (!_t.joinable()) return;
  {
    std::lock_guard l{_m};
    _closing = true;
    _cv.notify_one();
  }
  _t.join();
}

World::World(u32 mask) {
  for (int i = 0; i < 2; ++i) {
    const u32 k = sim::gen(5);
    e.push_back(ex.random(mask, k < 3 ? -1 : k == 3 ? int(sim::gen(4)) : 0));
  }
}
void World::finish() {
  for (int i = 0;; ++i) {
    bool done = pending.get() == 0;
    for (auto& x : e) done = done && x->submitted() == x->called() + x->dropped();
    if (done) break;
    SIM_CHECK(i < 120, "lost", "the pipeline does not end");
    std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 10 ? i : 10)));
  }
}

F inner_coro(World& w, yaclib::IExecutor& e, u32 k, Cap c) {
  Cap l{w};
  co_await On(e);
  auto r = outcome(k);
  co_return std::move(r);
}

Step random_step(World& w, u32 id) {
  Step s;
  s.id = id;
  s.attach = sim::gen(3);
  s.exec = sim::gen(u32(w.e.size()));
  static const u32 kArg[] = {1, 0, 1, 0, 2, 3};
  s.arg = kArg[sim::gen(6)];
  s.ret = sim::gen(nRets);
  s.k = sim::gen(4);
  return s;
}
std::string describe(const Step& s) {
  static const char* const at[] = {"ThenInline", "Then(e)", "Then"};
  static const char* const ar[] = {"int", "Result", "Error", "exception_ptr"};
  static const char* const rt[] = {"int", "Result", "throw", "MakeFuture", "pending Future", "Run", "SharedFuture", "MakeTask", "Schedule", "coroutine"};
  return std::string{"."} + at[s.attach] + "(" + ar[s.arg] + "->" + rt[s.ret] + ")";
}

}  // namespace c20

namespace {
using namespace c20;

F coro_src(World& w, u32 k, Cap c) {
  auto r = outcome(k);
  co_return std::move(r);
}
T task_src(World& w, u32 k, Cap c) {
  auto r = outcome(k);
  co_return std::move(r);
}
yaclib::Future<int, E0> awaits(F f, Cap c) {
  R r{co_await std::move(f)};
  co_return std::move(r);
}

// how the end of an eager pipeline is used: adds what it is entitled to
template <typename Fut>
void finish_with(Fut f, World& w, u32 how, u32 variant) {
  auto& e = *w.e[variant % w.e.size()];
  switch (how) {
    case 0: {
      auto r = std::move(f).Get();
      (void)r.State();
      break;
    }
    case 1:
      Wait(f);
      (void)std::as_const(f).Touch().State();
      break;
    case 2:
      for (int i = 0; i < 8 && !WaitFor(std::chrono::nanoseconds(variant * 400), f); ++i) sim::count(sim::kTimeout);
      Wait(f);
      (void)std::as_const(f).Get();
      break;
    case 3:
      w.allow(1);
      std::move(f).DetachInline([c = Cap{w}](R&&) {});
      break;
    case 4:
      w.allow(1);
      std::move(f).Detach(e, [c = Cap{w}](int) {});
      break;
    case 5:
      sim::count(sim::kDrop);
      break;
    case 6: {
      w.allow(1);
      auto [g, p] = yaclib::MakeContract<int, E0>();
      Connect(std::move(f), std::move(p));
      (void)std::move(g).Get();
      break;
    }
    case 7: {
      w.allow(1);
      auto g = Split(std::move(f));
      auto h = g;
      w.allow(3);
      auto x = g.ThenInline([c = Cap{w}](const R& r) { return R{r}; });
      auto y = h.Then(e, [c = Fat<200>{w}](int) {});
      auto z = Share(h);
      w.allow(1);
      h.SubscribeInline([c = Cap{w}](int) {});
      (void)std::move(z).Get();
      (void)std::move(x).Get();
      break;
    }
    case 8: {
      w.allow(1);
      if constexpr (FutureTypes<Fut>::on) {
        auto g = awaits(std::move(f).On(nullptr), Cap{w});
        (void)std::move(g).Get();
      } else {
        auto g = awaits(std::move(f), Cap{w});
        (void)std::move(g).Get();
      }
      break;
    }
    default:
      std::move(f).Detach();
      break;
  }
}

constexpr u32 kMaxSteps = 24;
u32 steps() { return sim::genp(1, 16) ? kMaxSteps - sim::gen(18) : sim::gen(6); }

void eager() {
  World w;
  std::string d;
  const u32 src = sim::gen(8), k = sim::gen(4), n = steps(), how = sim::gen(10), variant = sim::gen(4), form = sim::gen(2);
  Step st[kMaxSteps];
  for (u32 i = 0; i < n; ++i) st[i] = random_step(w, i);
  {
    sim::HostScope h;
    d = "source " + std::to_string(src);
    for (u32 i = 0; i < n; ++i) d += describe(st[i]);
    d += " end " + std::to_string(how);
  }
  auto& e = *w.e[k % w.e.size()];
  World* pw = &w;
  w.begin();
  {
    F f;
    FO fo;
    bool on = false;
    w.allow(1);
    switch (src) {
      case 0:
        f = yaclib::MakeFuture<int, E0>(outcome(k));
        break;
      case 1: {
        auto [g, p] = yaclib::MakeContract<int, E0>();
        f = std::move(g);
        w.hand.give(std::move(p), k);
        break;
      }
      case 2: {
        auto [g, p] = yaclib::MakeContractOn<int, E0>(e);
        fo = std::move(g);
        on = true;
        w.hand.give(std::move(p), k, form);
        break;
      }
      case 3:
        fo = yaclib::Run<E0>(e, [k, c = Fat<100>{w}] { return outcome(k); });
        on = true;
        break;
      case 4:
        fo = yaclib::AsyncContract<int, E0>(e, [pw, k, form, c = Cap{w}](P&& p) {
          if (form) {
            pw->hand.give(std::move(p), k);
          } else {
            std::move(p).Set(outcome(k));
          }
        });
        on = true;
        break;
      case 5:
        f = coro_src(w, k, Cap{w});
        break;
      case 6: {
        auto [g, p] = yaclib::MakeSharedContract<int, E0>();
        w.allow(1);
        f = Share(g);
        w.hand.give(std::move(p), k, form);
        break;
      }
      default: {
        auto g = yaclib::RunShared<E0>(e, [k, c = Cap{w}] { return outcome(k); });
        w.allow(1);
        f = std::move(g).On(nullptr).ThenInline([c = Cap{w}](const R& r) { return R{r}; });
        break;
      }
    }
    w.check(d.c_str());
    for (u32 i = 0; i < n; ++i) {
      if (on) {
        fo = step(std::move(fo), st[i], w);
      } else if (st[i].attach == 0) {
        f = step(std::move(f), st[i], w);
      } else {
        fo = step_on(std::move(f), st[i], w);
        on = true;
      }
      w.check(d.c_str());
    }
    if (on) {
      finish_with(std::move(fo), w, how, variant);
    } else {
      finish_with(std::move(f), w, how, variant);
    }
  }
  w.finish();
  w.check(d.c_str());
  w.hand.close();
  w.ex.shutdown();
  {
    sim::HostScope h;
    d = {};
  }
}

void lazy() {
  World w;
  std::string d;
  const u32 src = sim::gen(6), k = sim::gen(4), n = steps(), how = sim::gen(10), start = sim::gen(6), variant = sim::gen(4), form = sim::gen(2);
  Step st[kMaxSteps];
  for (u32 i = 0; i < n; ++i) st[i] = random_step(w, i);
  {
    sim::HostScope h;
    d = "lazy source " + std::to_string(src);
    for (u32 i = 0; i < n; ++i) d += describe(st[i]);
    d += " start " + std::to_string(start) + " end " + std::to_string(how);
  }
  auto& e = *w.e[k % w.e.size()];
  World* pw = &w;
  w.begin();
  {
    T t;
    w.allow(1);
    auto contract = [pw, k, form, c = Cap{w}](P&& p) {
      if (form) {
        pw->hand.give(std::move(p), k);
      } else {
        std::move(p).Set(outcome(k));
      }
    };
    switch (src) {
      case 0:
        t = yaclib::MakeTask<int, E0>(outcome(k));
        break;
      case 1:
        t = yaclib::Schedule<E0>(e, [k, c = Fat<100>{w}] { return outcome(k); });
        break;
      case 2:
        t = yaclib::Schedule<E0>([k, c = Cap{w}] { return outcome(k); });
        break;
      case 3:
        t = yaclib::LazyContract<int, E0>(std::move(contract));
        break;
      case 4:
        t = yaclib::LazyContract<int, E0>(e, std::move(contract));
        break;
      default:
        t = task_src(w, k, Cap{w});
        break;
    }
    for (u32 i = 0; i < n; ++i) {
      t = step(std::move(t), st[i], w);
      w.check(d.c_str());
    }
    switch (start) {
      case 0: {
        auto r = std::move(t).Get();
        (void)r.State();
        break;
      }
      case 1:
        std::move(t).Detach();
        break;
      case 2:
        std::move(t).Detach(e);
        break;
      case 3:
        finish_with(std::move(t).ToFuture(), w, how, variant);
        break;
      case 4:
        finish_with(std::move(t).ToFuture(e), w, how, variant);
        break;
      default:
        sim::count(sim::kDrop);
        std::move(t).Cancel();
        break;
    }
  }
  w.finish();
  w.check(d.c_str());
  w.hand.close();
  w.ex.shutdown();
  {
    sim::HostScope h;
    d = {};
  }
}

// waiting takes nothing
void waits() {
  World w;
  const u32 n = amount(6, 30), form = sim::gen(9), rounds = 1 + sim::gen(3);
  std::vector<F> fs;
  std::vector<FO> os;
  std::vector<P> ps;
  u32 ks[32], after[32];
  const bool on = sim::gen(2);
  for (u32 i = 0; i < n || i < 3; ++i) {
    ks[i] = sim::gen(5);
    after[i] = sim::gen(6);
    if (on) {
      auto [f, p] = yaclib::MakeContractOn<int, E0>(*w.e[0]);
      os.push_back(std::move(f));
      ps.push_back(std::move(p));
    } else {
      auto [f, p] = yaclib::MakeContract<int, E0>();
      fs.push_back(std::move(f));
      ps.push_back(std::move(p));
    }
  }
  w.begin();
  const u32 ready = sim::gen(u32(ps.size()) + 1);
  auto give = [&](u32 a, u32 b) {
    for (u32 i = a; i < b; ++i) w.hand.give(std::move(ps[i]), ks[i], after[i]);
  };
  give(0, ready);
  auto go = [&](auto& v) {
    for (u32 r = 0; r < rounds; ++r) {
      using namespace std::chrono;
      const auto d = nanoseconds(sim::gen(4) * 500);
      bool ok = true;
      const u64 before = sim::allocs();
      switch (form) {
        case 0:
          ok = WaitFor(d, v[0]);
          break;
        case 1:
          ok = WaitFor(d, v[0], v[1], v[2]);
          break;
        case 2:
          ok = WaitUntil(steady_clock::now() + d, v.begin(), v.end());
          break;
        case 3:
          ok = WaitFor(d, v.begin(), v.size());
          break;
        case 4:
          ok = WaitUntil(system_clock::now() + d, v[1], v[0]);
          break;
        default:
          ok = WaitFor(d, v.begin(), v.end());
          break;
      }
      if (!ok) sim::count(sim::kTimeout);
      SIM_CHECK(sim::allocs() == before, "allocations", "a timed wait of form %u allocated %llu blocks", form, (unsigned long long)(sim::allocs() - before));
    }
    give(ready, u32(ps.size()));
    const u64 before = sim::allocs();
    switch (form) {
      case 0:
        for (auto& f : v) Wait(f);
        break;
      case 1:
        Wait(v[2], v[1], v[0]);
        break;
      case 2:
        Wait(v.begin(), v.end());
        break;
      case 3:
        Wait(v.begin(), v.size());
        break;
      case 4:
        for (auto& f : v) {
          while (!f.Ready()) sim::yield();
        }
        break;
      default:
        break;
    }
    for (auto& f : v) {
      if (form == 5 && f.Ready()) {
        (void)std::as_const(f).Touch().State();
      } else {
        auto r = std::move(f).Get();
        (void)r.State();
      }
    }
    SIM_CHECK(sim::allocs() == before, "allocations", "a wait of form %u allocated %llu blocks", form, (unsigned long long)(sim::allocs() - before));
  };
  if (on) {
    go(os);
  } else {
    go(fs);
  }
  w.check("waiting, Get and fulfilment");
  w.hand.close();
  w.ex.shutdown();
}

// an existing job travels through strands without the heap
struct Node final : yaclib::Job {
  HostInt* ran = nullptr;
  HostInt* open = nullptr;
  HostInt* dropped = nullptr;
  yaclib::IExecutor* again = nullptr;
  u32 times = 0;
  void Call() noexcept override {
    ran->add(1);
    if (times != 0) {
      --times;
      open->add(-1);
      again->Submit(*this);
    }
  }
  void Drop() noexcept override { dropped->add(1); }
};
void strands() {
  World w{kLiveKinds | bit(xStoppedInline) | bit(xPool3)};
  const u32 n = amount(6, 50), threads = 1 + sim::gen(3), again = sim::gen(3);
  HostInt ran, dropped, open;
  std::vector<Node> jobs(n * threads);
  {
    yaclib::IExecutorPtr s = yaclib::MakeStrand(yaclib::IExecutorPtr{w.e[0].Get()});
    if (sim::gen(3) == 0) s = yaclib::MakeStrand(std::move(s));
    for (auto& j : jobs) {
      j.ran = &ran;
      j.dropped = &dropped;
      j.again = s.Get();
      j.times = again == 2 ? sim::gen(3) : 0;
      j.open = &open;
      open.add(int(j.times));
    }
    Latch start{1};
    HostInt ready, left;
    Threads th;
    for (u32 t = 0; t < threads; ++t) {
      th.go([&, t] {
        ready.add(1);
        start.wait();
        const u64 before = sim::allocs();
        for (u32 i = 0; i < n; ++i) s->Submit(jobs[t * n + i]);
        SIM_CHECK(sim::allocs() == before, "allocations", "submitting %u existing jobs to a strand allocated %llu blocks", n, (unsigned long long)(sim::allocs() - before));
        left.add(1);
      });
    }
    while (ready.get() != int(threads)) std::this_thread::sleep_for(std::chrono::microseconds(1));
    w.begin();
    start.done();
    for (int i = 0;; ++i) {
      bool done = left.get() == int(threads);
      int want = int(n * threads);
      done = done && w.e[0]->submitted() == w.e[0]->called() + w.e[0]->dropped();
      if (done) {
        // resubmissions of refused jobs do not happen
        if (dropped.get() == 0 ? ran.get() >= want && open.get() == 0 : ran.get() + dropped.get() >= want) break;
      }
      SIM_CHECK(i < 120 + 30 * int(n), "lost", "%d of %d jobs ran, %d were dropped", ran.get(), want, dropped.get());
      std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 10 ? i : 10)));
    }
    w.check("a strand running existing jobs");
    th.join();
    // jobs are still inside the strand's last batch until the pool is idle
    w.finish();
    s = nullptr;
  }
  w.hand.close();
  w.ex.shutdown();
}

// the number of blocks of a combinator does not depend on the number of inputs
constexpr int kCombinator = 6;
template <typename V>
void combine_with(V& v, World& w, u32 how, u32 form) {
  auto end = [&](auto f) {
    if (form == 0) {
      auto r = std::move(f).Get();
      (void)r.State();
    } else if (form == 1) {
      for (int i = 0; i < 4 && !WaitFor(std::chrono::nanoseconds(500), f); ++i) sim::count(sim::kTimeout);
      Wait(f);
    } else {
      sim::count(sim::kDrop);
    }
  };
  using yaclib::FailPolicy;
  const bool count = form == 1;
  switch (how) {
#define BOTH(WHAT) count ? end(WHAT(v.begin(), v.size())) : end(WHAT(v.begin(), v.end()))
    case 0:
      BOTH(WhenAll<FailPolicy::FirstFail>);
      break;
    case 1:
      BOTH(WhenAll<FailPolicy::None>);
      break;
    case 2:
      BOTH(WhenAny<FailPolicy::None>);
      break;
    case 3:
      BOTH(WhenAny<FailPolicy::FirstFail>);
      break;
    case 4:
      BOTH(WhenAny<FailPolicy::LastFail>);
      break;
    case 5:
      BOTH(Join);
      break;
    default:
      BOTH(Join<FailPolicy::FirstFail>);
      break;
#undef BOTH
  }
}
void combine() {
  World w;
  static const u32 kN[] = {1, 2, 3, 5, 9, 17, 33, 64};
  const u32 n = kN[sim::gen(8)], how = sim::gen(7), form = sim::gen(3), bad = sim::gen(3);
  std::vector<F> fs;
  std::vector<FO> os;
  std::vector<P> ps;
  std::vector<u32> ks;
  const bool on = sim::gen(2);
  for (u32 i = 0; i < n; ++i) {
    if (on) {
      auto [f, p] = yaclib::MakeContractOn<int, E0>(*w.e[0]);
      os.push_back(std::move(f));
      ps.push_back(std::move(p));
    } else {
      auto [f, p] = yaclib::MakeContract<int, E0>();
      fs.push_back(std::move(f));
      ps.push_back(std::move(p));
    }
    ks.push_back(bad == 0 ? 0 : sim::gen(5));
  }
  w.begin();
  w.allow(kCombinator);
  const u32 ready = sim::gen(4) * n / 3;
  for (u32 i = 0; i < n; ++i) {
    if (i < ready) {
      if (ks[i] == 4) {
        ps[i] = {};
      } else {
        std::move(ps[i]).Set(outcome(ks[i]));
      }
    } else {
      w.hand.give(std::move(ps[i]), ks[i], sim::gen(3));
    }
  }
  if (on) {
    combine_with(os, w, how, form);
  } else {
    combine_with(fs, w, how, form);
  }
  w.hand.close();
  SIM_CHECK(w.used() <= kCombinator, "allocations", "combinator %u over %u inputs (end %u) allocated %llu blocks", how, n, form, (unsigned long long)w.used());
  w.ex.shutdown();
}
// the variadic forms, mixed kinds
void combine_pack() {
  World w;
  const u32 how = sim::gen(6);
  auto c = [&] {
    auto [f, p] = yaclib::MakeContract<int, E0>();
    w.hand.give(std::move(p), sim::gen(5), sim::gen(3));
    return std::move(f);
  };
  F f[8];
  for (auto& x : f) x = c();
  FO o;
  {
    auto [x, p] = yaclib::MakeContractOn<int, E0>(*w.e[0]);
    o = std::move(x);
    w.hand.give(std::move(p), sim::gen(5));
  }
  using yaclib::FailPolicy;
  w.begin();
  w.allow(kCombinator);
  switch (how) {
    case 0:
      (void)WhenAll<FailPolicy::FirstFail>(std::move(f[0]), std::move(f[1]), std::move(o)).Get();
      break;
    case 1:
      (void)WhenAll<FailPolicy::None>(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5]), std::move(f[6]), std::move(f[7])).Get();
      break;
    case 2:
      (void)WhenAny<FailPolicy::None>(std::move(f[0]), std::move(o)).Get();
      break;
    case 3:
      (void)WhenAny<FailPolicy::LastFail>(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5]), std::move(f[6]), std::move(f[7])).Get();
      break;
    case 4:
      (void)Join(std::move(f[0]), std::move(f[1]), std::move(f[2]), std::move(f[3]), std::move(f[4]), std::move(f[5]), std::move(f[6]), std::move(f[7])).Get();
      break;
    default:
      (void)Join<FailPolicy::FirstFail>(std::move(f[0]), std::move(o)).Get();
      break;
  }
  SIM_CHECK(w.used() <= kCombinator, "allocations", "variadic combinator %u allocated %llu blocks", how, (unsigned long long)w.used());
  for (auto& x : f) {
    if (x.Valid()) (void)std::move(x).Get();
  }
  w.hand.close();
  w.ex.shutdown();
}

// co_await takes nothing beyond the frame
struct Inputs {
  std::vector<F> f;
  std::vector<FO> o;
  SF s;
};
yaclib::Future<int, E0> awaiter(World& w, Inputs in, yaclib::IExecutor& e, u32 how, Cap c) {
  Cap l{w};
  int r = 1;
  try {
    switch (how) {
      case 0:
        r = co_await std::move(in.f[0]);
        break;
      case 1:
        r = co_await std::move(in.o[0]);
        break;
      case 2:
        co_await Await(in.f[0]);
        r = std::move(in.f[0]).Touch().Ok();
        break;
      case 3:
        co_await Await(in.f[0], in.f[1], in.o[0]);
        break;
      case 4:
        co_await yaclib::Await(in.f.begin(), in.f.end());
        break;
      case 5:
        co_await yaclib::Await(in.o.begin(), in.o.size());
        break;
      case 6:
        co_await AwaitOn(e, in.f[0]);
        break;
      case 7:
        co_await AwaitOn(e, in.f[0], in.o[0]);
        break;
      case 8:
        co_await yaclib::AwaitOn(e, in.f.begin(), in.f.end());
        break;
      case 9:
        co_await On(e);
        co_await AwaitSticky(in.f[0]);
        break;
      case 10:
        co_await On(e);
        co_await AwaitSticky(in.f[0], in.f[1]);
        break;
      case 11:
        co_await On(e);
        co_await yaclib::AwaitSticky(in.o.begin(), in.o.end());
        break;
      case 12:
        r = co_await in.s;
        break;
      default:
        co_await Await(in.s);
        break;
    }
    if (how % 2) co_await yaclib::kYield;
  } catch (...) {
    r = 2;
  }
  co_return std::move(r);
}
void coawait() {
  World w;
  const u32 n = 2 + sim::gen(4), how = sim::gen(14), end = sim::gen(3);
  Inputs in;
  std::vector<P> ps;
  SP sp;
  u32 ks[32];
  for (u32& k : ks) k = sim::gen(5);
  for (u32 i = 0; i < n; ++i) {
    auto [f, p] = yaclib::MakeContract<int, E0>();
    in.f.push_back(std::move(f));
    ps.push_back(std::move(p));
    auto [o, q] = yaclib::MakeContractOn<int, E0>(*w.e[i % 2]);
    in.o.push_back(std::move(o));
    ps.push_back(std::move(q));
  }
  {
    auto [s, q] = yaclib::MakeSharedContract<int, E0>();
    in.s = std::move(s);
    sp = std::move(q);
  }
  auto& e = *w.e[sim::gen(2)];
  w.begin();
  const u32 ready = sim::gen(4) * 2 * n / 3;
  for (u32 i = 0; i < ready; ++i) w.hand.give(std::move(ps[i]), ks[i], 0);
  if (ready % 2) w.hand.give(std::move(sp), 0, 1);
  w.allow(1);
  {
    auto f = awaiter(w, std::move(in), e, how, Cap{w});
    for (u32 i = ready; i < 2 * n; ++i) w.hand.give(std::move(ps[i]), ks[i], sim::gen(3));
    if (sp.Valid()) w.hand.give(std::move(sp), ks[31], 1);
    if (end == 0) (void)std::move(f).Get();
    if (end == 1) std::move(f).Detach();
  }
  w.finish();
  SIM_CHECK(w.used() <= u64(w.budget.get()), "allocations", "a coroutine awaiting in form %u allocated %llu blocks (the frame is one)", how, (unsigned long long)w.used());
  w.hand.close();
  w.ex.shutdown();
}

sim::Workload a{"c20/eager", "C20", eager, sim::kAllButLeak, 4};
sim::Workload b{"c20/lazy", "C20", lazy, sim::kAllButLeak, 3};
sim::Workload c{"c20/wait", "C20", waits, sim::kAllButLeak, 2};
sim::Workload d{"c20/strand", "C20", strands, sim::kAllButLeak, 2};
sim::Workload e{"c20/combine", "C20", combine, sim::kAllButLeak, 2};
sim::Workload f{"c20/combine-pack", "C20", combine_pack, sim::kAllButLeak, 1};
sim::Workload g{"c20/coawait", "C20", coawait, sim::kAllButLeak, 2};
}  // namespace
