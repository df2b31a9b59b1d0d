// C05: every job handed to an executor is finished by exactly one of Call or Drop; Drop only if it is stopped.
#include "jobs.hpp"

#include "consume.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/lazy/schedule.hpp>

namespace {
using namespace kit;

// Any executor, jobs submitting jobs, the pool may be stopped at any time.
void pools() {
  Board b{64};
  HostInt stop_begun{0};
  const int kind = int(sim::gen(5));
  const int threads = 1 + int(sim::gen(3));
  const int how = int(sim::gen(4));  // 3: only at the end
  const int stop_delay = int(sim::gen(12));
  struct Plan {
    int n, delay[3];
    u32 nest[3];
    bool lambda[3];
  } pl[3];
  for (int i = 0; i < threads; ++i) {
    pl[i].n = 1 + int(sim::gen(3));
    for (int j = 0; j < 3; ++j) {
      pl[i].delay[j] = int(sim::gen(3));
      pl[i].nest[j] = sim::gen(4);
      pl[i].lambda[j] = sim::gen(2);
    }
  }
  auto pool = yaclib::MakeFairThreadPool(kind == 0 ? 1 : 2);
  yaclib::IExecutorPtr e = pool;
  if (kind == 2) e = yaclib::MakeStrand(pool);
  if (kind == 3) e = yaclib::MakeStrand(yaclib::MakeStrand(pool));
  if (kind == 4) e = yaclib::MakeStrand(yaclib::IExecutorPtr{&yaclib::MakeInline()});
  {
    Threads th;
    for (int i = 0; i < threads; ++i) {
      th.go([&, i] {
        for (int j = 0; j < pl[i].n; ++j) {
          for (int d = 0; d < pl[i].delay[j]; ++d) sim::yield();
          const u32 nest = pl[i].nest[j];
          const bool lambda = pl[i].lambda[j];
          submit(*e, b, i, [&, i, nest](int) {
            if (nest == 1 || nest == 3) submit(*e, b, 10 + i, [&](int) { sim::yield(); });
            if (nest == 2) sim::yield();
            if (nest == 3) submit(*e, b, 10 + i, [&](int) {}, true);
          }, lambda);
        }
      });
    }
    if (how < 3) {
      for (int d = 0; d < stop_delay; ++d) sim::yield();
      stop_begun.set(1);
      if (how == 0) pool->Stop();
      if (how == 1) pool->SoftStop();
      if (how == 2) pool->HardStop();
    }
    th.join();
  }
  if (how == 3) {
    settle(b);
    pool->Stop();
  }
  if (how == 1) {
    // a pool that is asked to stop when idle accepts work until then
    pool->Stop();
  }
  pool->Wait();
  const bool refusing = stop_begun.get() && kind != 4;
  for (int i = 0; i < b.size(); ++i) {
    const Rec& r = b.at(i);
    SIM_CHECK(r.called + r.dropped == 1, "xor", "job %d of %d was called %d times and dropped %d times", i, b.size(), r.called, r.dropped);
    if (r.dropped) SIM_CHECK(refusing, "dropped", "job %d was dropped although the executor was not stopped", i);
  }
  e = nullptr;
  pool = nullptr;
  check_no_live("after the pool");
}

// Inline and stopped Inline: finished before Submit returns, on the calling thread
void inlines() {
  Board b{64};
  const bool dead = sim::gen(2);
  yaclib::IExecutor& e = dead ? yaclib::MakeInline(yaclib::StopTag{}) : yaclib::MakeInline();
  SIM_CHECK(e.Alive() == !dead, "alive", "Alive() of an inline executor is wrong");
  Threads th;
  for (int i = 0; i < 2; ++i) {
    th.go([&, i] {
      for (int j = 0; j < 3; ++j) {
        const int self = sim::self();
        const int id = submit(e, b, i, [&, i](int) { submit(e, b, 10 + i, [&](int) { sim::yield(); }); }, j & 1);
        const Rec& r = b.at(id);
        SIM_CHECK(r.called + r.dropped == 1 && r.called == !dead, "xor", "an inline job was called %d times and dropped %d times before Submit returned", r.called, r.dropped);
        if (!dead) SIM_CHECK(r.fiber == self, "where", "an inline job ran on another thread");
      }
    });
  }
  th.join();
  check_no_live("after inline jobs");
}

// Manual: nothing runs outside Drain; Drain runs everything, also what its jobs submit, in order
void manual() {
  Board b{64};
  auto e = yaclib::MakeManual();
  auto& m = static_cast<yaclib::ManualExecutor&>(*e);
  const bool strand = sim::gen(2);
  yaclib::IExecutorPtr x = strand ? yaclib::IExecutorPtr{yaclib::MakeStrand(e)} : e;
  const int rounds = 1 + int(sim::gen(3));
  HostInt draining{0};
  for (int r = 0; r < rounds; ++r) {
    const int n = int(sim::gen(4));
    const std::size_t before = std::size_t(b.executed());
    for (int j = 0; j < n; ++j) {
      const u32 nest = sim::gen(3);
      submit(*x, b, 0, [&, nest](int) {
        SIM_CHECK(draining.get(), "where", "a job of a manual executor ran outside of Drain");
        if (nest) submit(*x, b, 1, [&, nest](int) {
          if (nest == 2) submit(*x, b, 2, [](int) {});
        }, nest == 2);
      }, j & 1);
    }
    SIM_CHECK(std::size_t(b.executed()) == before, "where", "a job ran before Drain");
    draining.set(1);
    const std::size_t done = m.Drain();
    draining.set(0);
    SIM_CHECK(b.executed() == b.size() && b.dropped() == 0, "xor", "Drain left %d of %d jobs", b.size() - b.executed(), b.size());
    if (!strand) SIM_CHECK(done == std::size_t(b.executed()) - before, "count", "Drain ran %zu jobs but reports %zu", std::size_t(b.executed()) - before, done);
    SIM_CHECK(m.Drain() == 0, "count", "a second Drain finds jobs");
  }
  // submission order
  for (int i = 0; i < b.size(); ++i) {
    for (int j = i + 1; j < b.size(); ++j) SIM_CHECK(b.at(i).order < b.at(j).order, "order", "job %d submitted before job %d ran after it", i, j);
  }
  {
    auto f = yaclib::Run(*x, [] { return 5; }).Then([](int v) { return v + 1; });
    SIM_CHECK(!f.Ready(), "where", "a step on a manual executor ran before Drain");
    (void)m.Drain();
    SIM_CHECK(f.Ready() && std::as_const(f).Touch().Value() == 6, "final", "a pipeline on a manual executor has not completed after Drain");
  }
  x = nullptr;
  e = nullptr;
  check_no_live("after the manual executor");
}

// Strand on top of an executor that refuses from some job on
void refusing() {
  Execs ex;
  Board b{64};
  auto base = ex.random(bit(xPool2) | bit(xChaos) | bit(xInline), int(sim::gen(5)));
  yaclib::IExecutorPtr s = yaclib::MakeStrand(base);
  if (sim::gen(3) == 0) s = yaclib::MakeStrand(s);
  const int threads = 1 + int(sim::gen(3));
  auto* sp = s.Get();
  {
    Threads th;
    for (int i = 0; i < threads; ++i) {
      th.go([&, sp, i] {
        for (int j = 0; j < 3; ++j) {
          submit(*sp, b, i, [&, sp, i, j](int) {
            if (j == 1) submit(*sp, b, 10 + i, [&](int) { sim::yield(); });
          }, j == 2);
        }
      });
    }
  }
  settle(b);
  s = nullptr;
  ex.shutdown();
  for (int i = 0; i < b.size(); ++i) {
    const Rec& r = b.at(i);
    SIM_CHECK(r.called + r.dropped == 1, "xor", "job %d was called %d times and dropped %d times", i, r.called, r.dropped);
    if (r.dropped) SIM_CHECK(base->refused() > 0, "dropped", "job %d was dropped although nobody refused it", i);
  }
  SIM_CHECK(base->called() + base->dropped() == base->submitted(), "xor", "the strand's own job is neither called nor dropped");
  base = nullptr;
  check_no_live("after the strand");
}

// Executors nobody owns but the steps that are to run in them: a fresh strand per step, forgotten at once.
yaclib::Future<int> owned_coro(yaclib::IExecutorPtr base, yaclib::Future<int> f, u32 how) {
  co_await On(*yaclib::MakeStrand(base));
  int v = 0;
  if (how & 1) co_await yaclib::kYield;
  const void* const at = &co_await yaclib::CurrentExecutor();
  switch ((how >> 1) % 4) {
    case 0:
      co_await yaclib::Await(f);
      v = std::move(f).Touch().Ok();
      break;
    case 1: {
      co_await yaclib::AwaitSticky(f);
      SIM_CHECK(&co_await yaclib::CurrentExecutor() == at, "where", "AwaitSticky left the coroutine in another executor");
      v = std::move(f).Touch().Ok();
      break;
    }
    case 2:
      co_await yaclib::AwaitOn(*yaclib::MakeStrand(base), f);
      v = std::move(f).Touch().Ok();
      break;
    default:
      v = co_await std::move(f);
      break;
  }
  if (how & 8) co_await On(*yaclib::MakeStrand(base));
  if (how & 16) co_await yaclib::kYield;
  co_return v + 100;
}
void owned() {
  Execs ex;
  {
    auto base = ex.random(kThreaded);
    auto fresh = [&] { return yaclib::MakeStrand(base); };
    const int n = 1 + int(sim::gen(3));
    std::vector<yaclib::Future<int>> fs;
    HostInt calls[3];
    int want[3];
    Threads th;
    for (int i = 0; i < n; ++i) {
      const u32 how = sim::gen(6), then = sim::gen(8), co = sim::gen(64);
      want[i] = 2;
      yaclib::FutureOn<int> f;
      auto step = [&calls, i](int v) {
        calls[i].add(1);
        return v + 1;
      };
      switch (how) {
        case 0:
          f = yaclib::Run(*fresh(), [] { return 1; }).Then(step);
          break;
        case 1:
          f = yaclib::Schedule(*fresh(), [] { return 1; }).Then(step).ToFuture(*fresh());
          break;
        case 2: {
          auto [g, p] = yaclib::MakeContractOn<int>(*fresh());
          th.go([p = std::move(p)]() mutable { std::move(p).Set(1); });
          f = std::move(g).Then(step);
          break;
        }
        case 3: {
          auto [g, p] = yaclib::MakeSharedContract<int>();
          th.go([p = std::move(p)]() mutable { std::move(p).Set(1); });
          f = g.Then(*fresh(), step);
          break;
        }
        case 4: {
          auto [g, p] = yaclib::MakeSharedContractOn<int>(*fresh());
          th.go([p = std::move(p)]() mutable { std::move(p).Set(1); });
          f = g.Then(step);
          break;
        }
        default:
          f = yaclib::Run(*fresh(), [base = yaclib::IExecutorPtr{base}] { return yaclib::Run(*yaclib::MakeStrand(base), [] { return 1; }); }).Then(step);
          break;
      }
      if (then & 1) f = std::move(f).Then(*fresh(), [](int v) { return v; });
      if (then & 2) f = std::move(f).Then([b = yaclib::IExecutorPtr{base}](int v) { return yaclib::Run(*yaclib::MakeStrand(b), [v] { return v; }).On(nullptr); });
      auto g = std::move(f).On(nullptr);
      if (then & 4) {
        g = owned_coro(base, std::move(g), co);
        want[i] += 100;
      }
      fs.push_back(std::move(g));
    }
    for (int i = 0; i < n; ++i) {
      const int got = std::move(fs[std::size_t(i)]).Get().Ok();
      SIM_CHECK(got == want[i] && calls[i].get() == 1, "final", "a pipeline on executors of its own ended with %d instead of %d, its step ran %d times", got, want[i], calls[i].get());
    }
    th.join();
    base = nullptr;
  }
  ex.shutdown();
  check_no_live("after the pipelines");
}

sim::Workload a{"c05/pools", "C05", pools, sim::kAll, 3};
sim::Workload b_{"c05/inline", "C05", inlines, sim::kAll, 1};
sim::Workload c{"c05/manual", "C05", manual, sim::kAll, 1};
sim::Workload d{"c05/refusing", "C05", refusing, sim::kAll, 2};
sim::Workload o{"c05/owned", "C05", owned, sim::kAll, 2};
}  // namespace
