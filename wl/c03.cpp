#include "c03.hpp"
#include "jobs.hpp"

#include <yaclib/util/detail/shared_func.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/coro/guard_sticky.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/shared_mutex.hpp>

namespace c03 {
const char* end_name(u32 e) {
  static const char* const n[] = {"drop", "Get", "Detach()", "DetachInline", "Detach(e)", "Wait, drop", "WaitFor, drop", "drop in a thread", "Connect to nobody", "Connect", "Connect to shared", "Split", "Split, observed",
                                  "captured by a dropped callback", "returned from a callback, dropped", "co_await", "co_await AwaitOn", "WhenAny", "WhenAll", "ThenInline, drop", "move assigned over"};
  return n[e];
}
}  // namespace c03

namespace {
using namespace c03;

void end_checks(Env& env, const char* d) {
  released(d);
  // a job that holds no tracked object may still be on its way
  for (auto& e : env.e) idle(*e, d);
  env.close();
  released(d);
  env.ex.shutdown();
}

// an eager pipeline, built up to some step, then let go
void eager_n(u32 steps, bool stops) {
  {
    Accept acc;
    Env env{stops ? kAllKinds : kLiveKinds | bit(xStoppedInline), 2, acc.a};
    env.plan = random_plan(env, false, int(steps));
    const u32 how = sim::gen(eEnds);
    const std::string d = describe(env.plan, false) + " | " + end_name(how);
    sim::log("%s", d.c_str());
    Threads th;
    if (stops) stopper(env, th);
    {
      Eager s;
      source(s, env);
      for (int i = 0; i < env.plan.n; ++i) {
        attach_step(s, env.plan.s[i], env);
        if (env.plan.delay == i + 1) sim::yield();
      }
      // one more step in front of the end, so that something is still pending
      if (s.on) {
        let_go(std::move(s.fo), env, how, th);
      } else {
        let_go(std::move(s.f), env, how, th);
      }
    }
    th.join();
    end_checks(env, d.c_str());
  }
  check_no_live("after the pipeline was let go");
}
void eager() { eager_n(4, false); }
void eager_short() { eager_n(1, true); }
void eager_stops() { eager_n(4, true); }

// a lazy pipeline; it may never start, be started and let go, or be destroyed in the middle of being built
void lazy_n(u32 steps, bool stops) {
  {
    Accept acc;
    Env env{stops ? kAllKinds : kLiveKinds | bit(xStoppedInline), 2, acc.a};
    env.plan = random_plan(env, true, int(steps));
    const u32 how = sim::gen(8);
    const u32 end = sim::gen(eEnds);
    auto& e = *env.e[sim::gen(u32(env.e.size()))];
    const std::string d = describe(env.plan, true) + " | start " + std::to_string(how) + " | " + end_name(end);
    sim::log("%s", d.c_str());
    Threads th;
    if (stops) stopper(env, th);
    {
      Lazy s;
      source(s, env);
      for (int i = 0; i < env.plan.n; ++i) attach_step(s, env.plan.s[i], env);
      switch (how) {
        case 0:
          sim::count(sim::kDrop);
          break;
        case 1:
          std::move(s.t).Cancel();
          break;
        case 2:
          let_go(std::move(s.t).ToFuture(), env, end, th);
          break;
        case 3:
          let_go(std::move(s.t).ToFuture(e), env, end, th);
          break;
        case 4:
          std::move(s.t).Detach();
          break;
        case 5:
          std::move(s.t).Detach(e);
          break;
        case 6:  // returned from a callback of a pipeline that is let go
          let_go(yaclib::Run<Err>(e,
                                  [t = std::move(s.t), k = Tok{50}]() mutable {
                                    k.use();
                                    return std::move(t);
                                  }),
                 env, end, th);
          break;
        default: {  // owned by a callback nobody ever calls
          auto u = yaclib::Schedule<Err>(e, [t = std::move(s.t), k = Tok{51}]() mutable {
            k.use();
            return std::move(t);
          });
          if (end % 2) std::move(u).Detach();
          break;
        }
      }
    }
    th.join();
    end_checks(env, d.c_str());
  }
  check_no_live("after the lazy pipeline was let go");
}
void lazy() { lazy_n(3, false); }
void lazy_stops() { lazy_n(4, true); }

// a shared state with copies in several threads, observers attached at any time, everything let go
using SFut = kit::SFut;
yaclib::Future<int, Err> await_shared(SFut f, Tok t, bool twice) {
  Tok local{1};
  int r = 0;
  try {
    Val v = co_await f;
    r = v.id();
    if (twice) {
      co_await Await(f);
      r += std::as_const(f).Touch().Value().id();
    }
  } catch (yaclib::ResultError<Err>&) {
  } catch (Boom&) {
  }
  local.use();
  t.use();
  co_return std::move(r);
}
void shared_use(SFut f, Env& env, u32 how, u32 variant) {
  auto& e = *env.e[variant % env.e.size()];
  switch (how) {
    case 0:
      break;
    case 1:
      f.SubscribeInline([t = Tok{80}, variant](const R& r) {
        t.use();
        (void)out(r);
        if (variant % 2) throw Boom{3};
      });
      break;
    case 2:
      f.Subscribe(e, [t = Tok{81}](Val v) {
        t.use();
        (void)v.id();
      });
      break;
    case 3: {
      auto g = f.Then(e, [t = Tok{82}](const R& r) {
        t.use();
        return R{r};
      });
      if (variant % 3 == 0) std::move(g).Detach();
      break;
    }
    case 4: {
      auto g = f.ThenInline([t = Tok{83}, f](Val v) {  // keeps a copy of its own source
        t.use();
        SIM_CHECK(f.Valid(), "valid", "the captured SharedFuture is not Valid");
        return v;
      });
      break;
    }
    case 5: {
      auto g = Share(f);
      if (variant % 2) {
        auto r = std::move(g).Get();
        (void)out(r);
      }
      break;
    }
    case 6: {
      auto [g, p] = yaclib::MakeSharedContract<Val, Err>();
      if (variant % 2) g = {};
      Connect(f, std::move(p));
      break;
    }
    case 7: {
      auto r = f.Get();
      (void)out(r);
      break;
    }
    case 8:
      Wait(f);
      sim::scribble_stack();
      break;
    case 9: {
      auto g = await_shared(std::move(f), Tok{84}, variant % 2);
      if (variant % 3 == 0) (void)std::move(g).Get();
      break;
    }
    case 10: {
      auto g = yaclib::MakeFuture<void, Err>().Then(e, [f, t = Tok{85}] {
        t.use();
        return f;
      });
      f = {};
      break;
    }
    case 11: {
      auto g = f.ThenInline([t = Tok{86}, &env](Val v) -> yaclib::Future<Val, Err> {
        t.use();
        auto [x, p] = yaclib::MakeContract<Val, Err>();
        env.later(std::move(p), value(v.id() + 1), 0);
        return std::move(x);
      });
      break;
    }
    case 12: {
      std::vector<SFut> v{f, f};
      f = {};
      auto g = variant % 2 ? WhenAny<yaclib::FailPolicy::LastFail>(v.begin(), v.end()).ThenInline([](R&&) {}) : WhenAll<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()).ThenInline([](auto&&) {});
      break;
    }
    default: {
      std::vector<SFut> v(3, f);
      f = std::move(v[1]);
      v[0] = f;
      v[2] = std::move(v[0]);
      break;
    }
  }
}
void shared() {
  {
    Accept acc;
    Env env{kLiveKinds | bit(xStoppedInline), 2, acc.a};
    const u32 kind = sim::gen(5);
    const Out o = random_out(true);
    const u32 form = sim::gen(6);
    Threads th;
    {
      SFut f;
      kit::SP sp;
      kit::P p;
      Env* pe = &env;
      auto work = [pe, o, form, t = Tok{90}] {
        t.use();
        if (o.k == 'X' && form % 2) throw Boom{o.id};
        return make_result<Val, Err>(o);
      };
      switch (kind) {
        case 0: {
          auto [g, q] = yaclib::MakeSharedContract<Val, Err>();
          f = std::move(g);
          sp = std::move(q);
          break;
        }
        case 1: {
          sp = yaclib::MakeSharedPromise<Val, Err>();
          f = Split(sp);
          if (form % 2) (void)Share(sp);
          if (form % 3 == 0) (void)Split(sp);
          break;
        }
        case 2: {
          auto [g, q] = yaclib::MakeContract<Val, Err>();
          f = Split(std::move(g));
          p = std::move(q);
          break;
        }
        case 3:
          f = yaclib::RunShared<Err>(*env.e[0], std::move(work)).On(nullptr);
          break;
        default:
          f = Split(yaclib::Run<Err>(*env.e[0], std::move(work)).On(nullptr));
          break;
      }
      const int n = 1 + int(sim::gen(3));
      for (int k = 0; k < n; ++k) {
        th.go([pe, f, how = sim::gen(14), variant = sim::gen(6), n2 = sim::gen(4), how2 = sim::gen(14)]() mutable {
          for (u32 i = 0; i < n2; ++i) sim::yield();
          shared_use(f, *pe, how, variant);
          if (n2 % 2) shared_use(std::move(f), *pe, how2, variant + 1);
        });
      }
      if (sp.Valid() || p.Valid()) {
        th.go([sp = std::move(sp), p = std::move(p), o, form, n = sim::gen(5)]() mutable {
          for (u32 i = 0; i < n; ++i) sim::yield();
          if (sp.Valid()) {
            fulfil<kit::SP, Val, Err>(std::move(sp), o, form);
          } else {
            fulfil<kit::P, Val, Err>(std::move(p), o, form);
          }
        });
      }
      if (sim::gen(2)) shared_use(std::move(f), env, sim::gen(14), sim::gen(6));
    }
    th.join();
    end_checks(env, "shared state");
  }
  check_no_live("after the shared state was let go");
}

// combinators whose output or inputs are let go
template <typename V>
void combine_with(V& v, u32 how, u32 variant, yaclib::IExecutor& e) {
  auto end = [&](auto f) {
    switch (variant) {
      case 0:
        break;
      case 1: {
        auto r = std::move(f).Get();
        (void)r;
        break;
      }
      case 2:
        std::move(f).DetachInline([t = Tok{91}](auto&&...) { t.use(); });
        break;
      case 3:
        std::move(f).Detach();
        break;
      case 4:
        std::move(f).Detach(e, [t = Tok{92}](auto&&...) { t.use(); });
        break;
      default: {
        auto g = std::move(f).ThenInline([t = Tok{93}](auto&&...) -> int {
          t.use();
          throw Boom{4};
        });
        break;
      }
    }
  };
  switch (how) {
    case 0:
      end(WhenAll<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()));
      break;
    case 1:
      end(WhenAll<yaclib::FailPolicy::None>(v.begin(), v.end()));
      break;
    case 2:
      end(WhenAny<yaclib::FailPolicy::None>(v.begin(), v.end()));
      break;
    case 3:
      end(WhenAny<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()));
      break;
    case 4:
      end(WhenAny<yaclib::FailPolicy::LastFail>(v.begin(), v.size()));
      break;
    case 5:
      end(Join(v.begin(), v.end()));
      break;
    default:
      end(Join<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()));
      break;
  }
}
void combine() {
  {
    Accept acc;
    Env env{kLiveKinds | bit(xStoppedInline), 2, acc.a};
    const u32 n = 1 + sim::gen(4);
    const bool sh = sim::gen(3) == 0;
    const u32 how = sim::gen(7), variant = sim::gen(6);
    Threads th;
    {
      std::vector<F> v;
      std::vector<SFut> s;
      for (u32 i = 0; i < n; ++i) {
        const Out o = random_out(true);
        const u32 form = sim::gen(6), kind = sim::gen(4);
        if (kind == 0) {
          auto f = yaclib::Run<Err>(*env.e[i % 2], [o, t = Tok{94}] {
            t.use();
            return make_result<Val, Err>(o);
          });
          if (sh) {
            s.push_back(Split(std::move(f).On(nullptr)));
          } else {
            v.push_back(std::move(f).On(nullptr));
          }
        } else if (sh) {
          auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
          s.push_back(kind == 1 && !s.empty() ? s[0] : f);
          env.later(std::move(p), o, form);
        } else {
          auto [f, p] = yaclib::MakeContract<Val, Err>();
          v.push_back(std::move(f));
          if (kind == 2) {
            th.go([p = std::move(p), o, form]() mutable { fulfil<kit::P, Val, Err>(std::move(p), o, form); });
          } else {
            env.later(std::move(p), o, form);
          }
        }
      }
      auto& e = *env.e[1];
      if (sh) {
        combine_with(s, how, variant, e);
      } else {
        combine_with(v, how, variant, e);
      }
    }
    th.join();
    end_checks(env, "combinator");
  }
  check_no_live("after the combinator was let go");
}

// executors are kept alive by what is submitted to them, and released afterwards
struct OwnJob {
  Tok t{95};
};
void executors() {
  {
    Execs ex;
    auto pool = ex.make(sim::gen(2) ? xPool1 : xPool2);
    const u32 kind = sim::gen(7), n = 1 + sim::gen(4), stop = sim::gen(5);
    Threads th;
    {
      yaclib::IExecutorPtr base{pool.Get()};
      auto strand = yaclib::MakeStrand(base);
      if (kind == 1) strand = yaclib::MakeStrand(std::move(strand));
      base = nullptr;
      if (stop == 1) pool->Refuse();
      if (stop >= 3) {
        th.go([&ex, how = int(stop - 3)] {
          sim::count(sim::kStopExec);
          ex.stop_pool(0, how + 1);
        });
      }
      std::vector<F> keep;
      for (u32 i = 0; i < n; ++i) {
        switch ((kind + i) % 7) {
          case 0:
            Submit(*strand, [t = Tok{96}, s = sim::gen(2) ? strand : nullptr] { t.use(); });  // may own its executor
            break;
          case 1:
            keep.push_back(yaclib::Run<Err>(*strand, [t = Tok{97}] {
                             t.use();
                             return Val{1};
                           }).On(nullptr));
            break;
          case 2:
            yaclib::MakeFuture<Val, Err>(Val{1}).Then(*strand, [t = Tok{98}](Val v) { return v; }).Detach();
            break;
          case 3: {
            auto t = yaclib::Schedule<Err>(*strand, [t = Tok{99}] { return Val{1}; }).Then([t = Tok{100}](Val v) { return v; });
            if (i % 2) std::move(t).Detach();
            break;
          }
          case 4: {
            auto [f, p] = yaclib::MakeContractOn<Val, Err>(*strand);
            auto g = std::move(f).Then([t = Tok{101}](R&& r) {
              t.use();
              return std::move(r);
            });
            if (i % 2) keep.push_back(std::move(g).On(nullptr));
            th.go([p = std::move(p), s = sim::gen(2) ? strand : nullptr]() mutable {
              s = nullptr;
              std::move(p).Set(Val{3});
            });
            break;
          }
          case 5: {
            auto c = [](yaclib::IExecutorPtr e, Tok t) -> yaclib::Future<Val, Err> {
              Tok l{2};
              co_await On(*e);
              e = nullptr;  // the coroutine still runs there
              co_await yaclib::kYield;
              t.use();
              l.use();
              co_return Val{2};
            };
            auto f = c(strand, Tok{102});
            if (i % 2) keep.push_back(std::move(f));
            break;
          }
          default: {
            auto f = yaclib::AsyncContract<Val, Err>(*strand, [t = Tok{103}](kit::P&& p) {
              t.use();
              auto q = std::move(p);
            });
            break;
          }
        }
      }
      strand = nullptr;  // the last owner outside
      if (sim::gen(2)) {
        for (auto& f : keep) (void)std::move(f).Get();
      }
    }
    th.join();
    released("executors");
    idle(*pool, "executors");
    ex.shutdown();
    pool = nullptr;
  }
  check_no_live("after the executors were released");
}

// jobs left in a manual executor, an inline executor, Drop of everything
void manual() {
  {
    yaclib::IExecutorPtr m = yaclib::MakeManual();
    auto* man = static_cast<yaclib::ManualExecutor*>(m.Get());
    const u32 n = 1 + sim::gen(5);
    const bool drain = sim::gen(2);
    auto strand = yaclib::MakeStrand(m);
    std::vector<F> keep;
    Threads th;
    for (u32 i = 0; i < n; ++i) {
      yaclib::IExecutor& e = sim::gen(2) ? static_cast<yaclib::IExecutor&>(*m) : *strand;
      switch (sim::gen(5)) {
        case 0:
          Submit(e, [t = Tok{1}] { t.use(); });
          break;
        case 1:
          keep.push_back(yaclib::Run<Err>(e, [t = Tok{2}] { return Val{1}; }).On(nullptr));
          break;
        case 2: {
          auto f = yaclib::Run<Err>(e, [t = Tok{3}] { return Val{1}; });
          break;
        }
        case 3: {
          auto c = [](yaclib::IExecutor& x, Tok t) -> yaclib::Future<Val, Err> {
            Tok l{2};
            co_await On(x);
            t.use();
            co_await On(x);
            l.use();
            co_return Val{2};
          };
          auto f = c(e, Tok{4});
          if (i % 2) keep.push_back(std::move(f));
          break;
        }
        default:
          yaclib::Schedule<Err>(e, [t = Tok{5}, &e] {
            Submit(e, [t = Tok{6}] { t.use(); });
            return Val{4};
          })
            .Then([t = Tok{7}](Val v) { return v; })
            .Detach();
          break;
      }
      if (sim::gen(3) == 0) (void)man->Drain();
    }
    if (sim::gen(2)) keep.clear();
    if (drain) {
      while (man->Drain() != 0) {
      }
    } else {
      sim::count(sim::kStopExec);
    }
    strand = nullptr;
    while (man->Drain() != 0) {
    }
    SIM_CHECK(man->Drain() == 0, "lost", "Drain left something");
    if (sim::gen(2)) {
      for (auto& f : keep) {
        if (f.Valid()) (void)std::move(f).Get();
      }
    }
  }
  check_no_live("after the manual executor was released");
}

// coroutines that are dropped while they hold a lock, wait for one, or are still suspended on something
template <bool Batch, bool Fifo>
yaclib::Future<int, Err> locker(yaclib::Mutex<Batch, Fifo>& m, yaclib::IExecutor& e, Tok t, u32 how) {
  Tok l{1};
  co_await On(e);
  if (how == 0) {
    co_await m.Lock();
    co_await yaclib::kYield;
    l.use();
    m.UnlockHere();
  } else if (how == 1) {
    auto g = co_await m.Guard();
    l.use();
    co_await yaclib::kYield;
  } else if (how == 2) {
    auto g = co_await m.GuardSticky();
    l.use();
    co_await g.Unlock();
  } else {
    co_await m.Lock();
    l.use();
    co_await m.UnlockOn(e);
  }
  t.use();
  co_return 1;
}
template <bool Batch, bool Fifo>
void locks() {
  {
    Execs ex;
    std::vector<ProxyPtr> e;
    for (int i = 0; i < 2; ++i) e.push_back(ex.random(kLiveKinds));
    yaclib::Mutex<Batch, Fifo> m;
    {
      std::vector<yaclib::Future<int, Err>> fs;
      const u32 n = 1 + sim::gen(4);
      for (u32 i = 0; i < n; ++i) {
        auto f = locker(m, *e[i % 2], Tok{20}, sim::gen(4));
        if (sim::gen(2)) {
          fs.push_back(std::move(f));
        } else if (sim::gen(2)) {
          std::move(f).Detach();
        }
      }
      if (sim::gen(2)) {
        for (auto& f : fs) (void)std::move(f).Get();
      }
    }
    released("lockers");
    for (auto& x : e) idle(*x, "lockers");
    ex.shutdown();
    e.clear();
  }
  check_no_live("after the lockers");
}
// functors shared by several owners
void funcs() {
  {
    const int calls = int(sim::gen(4)), owners = 1 + int(sim::gen(3));
    const bool boom = sim::genp(1, 4), by_ref = sim::genp(1, 2);
    int ran = 0;
    {
      auto f = [&ran, boom, t = Tok{30}] {
        t.use();
        ++ran;
        if (boom) {
          sim::count(sim::kThrow);
          throw Boom{1};
        }
      };
      yaclib::IFuncPtr p = by_ref ? yaclib::MakeFunc(f) : yaclib::MakeFunc(std::move(f));
      Threads th;
      for (int i = 0; i < owners; ++i) {
        th.go([q = p, i, calls] {
          auto r = q;
          if (i == 0) {
            for (int k = 0; k < calls; ++k) r->Call();
          }
          r = nullptr;
        });
      }
      p = nullptr;
      th.join();
    }
    SIM_CHECK(ran == calls, "exactly-once", "a function was called %d times but ran %d times", calls, ran);
  }
  check_no_live("after the functions");
}
void locks_a() { locks<false, false>(); }
void locks_b() { locks<true, true>(); }

sim::Workload l{"c03/funcs", "C03", funcs, sim::kAll, 1};
sim::Workload a{"c03/eager", "C03", eager, sim::kAll, 4};
sim::Workload b{"c03/eager-short", "C03", eager_short, sim::kAll, 3};
sim::Workload c{"c03/eager-stops", "C03", eager_stops, sim::kAll, 3};
sim::Workload d{"c03/lazy", "C03", lazy, sim::kAll, 3};
sim::Workload e{"c03/lazy-stops", "C03", lazy_stops, sim::kAll, 2};
sim::Workload f{"c03/shared", "C03", shared, sim::kAll, 4};
sim::Workload g{"c03/combine", "C03", combine, sim::kAll, 3};
sim::Workload h{"c03/executors", "C03", executors, sim::kAll, 3};
sim::Workload i{"c03/manual", "C03", manual, sim::kAll, 1};
sim::Workload j{"c03/locks", "C03", locks_a, sim::kAll, 1};
sim::Workload k{"c03/locks-batch-fifo", "C03", locks_b, sim::kAll, 1};
}  // namespace
