// C12: a Task does nothing until it is started; then it is the same pipeline. Destroying it releases everything.
#include "chain.hpp"

#include <yaclib/coro/await.hpp>

namespace {
using namespace kit;

struct Accept {
  int a[2];
  Accept() {
    for (int& x : a) {
      const u32 k = sim::gen(4);
      x = k < 2 ? -1 : k == 2 ? 0 : 1 + int(sim::gen(3));
    }
  }
};

void judge(Env& env, const Expect& x, Out got, const char* how) {
  const Plan& p = env.plan;
  const std::string d = describe(p, true);
  for (int i = 0; i < p.n; ++i) {
    SIM_CHECK(env.slots.count(i) == x.calls[i], "callbacks-invoked", "step %d of %s (%s) ran %d times, expected %d", i, d.c_str(), how, env.slots.count(i), x.calls[i]);
    if (x.calls[i]) SIM_CHECK(env.slots.last(i) == x.input[i], "callback-input", "step %d of %s (%s) got %c%d, expected %c%d", i, d.c_str(), how, env.slots.last(i).k, env.slots.last(i).id, x.input[i].k, x.input[i].id);
    if (x.calls[i] && x.on[i] >= 0) SIM_CHECK(env.at[i].get() == x.on[i], "where", "step %d of %s (%s) ran in executor %s, expected %s", i, d.c_str(), how, env.ex.name(env.at[i].get()), env.ex.name(x.on[i]));
  }
  SIM_CHECK(!env.disorder.get(), "order", "%s (%s): steps ran out of order", d.c_str(), how);
  SIM_CHECK(!env.early.get(), "early", "%s (%s): a part of the pipeline ran before it was started", d.c_str(), how);
  SIM_CHECK(got == x.final, "final", "%s (%s): result %c%d, expected %c%d", d.c_str(), how, got.k, got.id, x.final.k, x.final.id);
}

void build(Lazy& s, Env& env) {
  source(s, env);
  for (int i = 0; i < env.plan.n; ++i) attach_step(s, env.plan.s[i], env);
}
// the owner may keep it, move it around, let time pass: nothing happens
void linger(Lazy& s, Env& env) {
  const u32 how = sim::gen(5);
  SIM_CHECK(s.t.Valid(), "valid", "a built Task is not Valid");
  if (how == 1) {
    T other = std::move(s.t);
    s.t = std::move(other);
  } else if (how == 2) {
    std::vector<T> v;
    v.push_back(std::move(s.t));
    v.emplace_back();
    v.reserve(v.capacity() + 4);
    s.t = std::move(v[0]);
  } else if (how == 3) {
    s.t = std::move(s.t).On(nullptr);
  }
  for (int i = 0; i < env.plan.delay; ++i) sim::yield();
  SIM_CHECK(!s.t.Ready(), "early", "a Task is Ready before it was started");
  for (auto& e : env.e) SIM_CHECK(e->submitted() == 0, "early", "%s: executor %d got a job before the Task was started", describe(env.plan, true).c_str(), e->tag());
  SIM_CHECK(!env.early.get(), "early", "%s: a part of the pipeline ran before it was started", describe(env.plan, true).c_str());
}

template <typename A>
yaclib::Future<int, Err> awaits(A a, Slots& fin, Tok t) {
  Tok local{1};
  Out o;
  try {
    Val v = co_await std::move(a);
    o = value(v.id());
  } catch (yaclib::ResultError<Err>& x) {
    o = error(x.Get().code);
  } catch (Boom& b) {
    o = except(b.id);
  }
  local.use();
  t.use();
  fin.see(0, o);
  co_return 1;
}
yaclib::Task<int, Err> awaits_lazily(T a, Slots& fin, Tok t) {
  Out o;
  try {
    Val v = co_await std::move(a);
    o = value(v.id());
  } catch (yaclib::ResultError<Err>& x) {
    o = error(x.Get().code);
  } catch (Boom& b) {
    o = except(b.id);
  }
  t.use();
  fin.see(0, o);
  co_return 1;
}
// Await(task): starts it, the task stays valid and ready; then it is used or just destroyed
yaclib::Future<int, Err> awaits_ready(T a, Slots& fin, Tok t, u32 how) {
  co_await Await(a);
  SIM_CHECK(a.Valid() && a.Ready(), "ready", "a Task is not Ready after co_await Await(task)");
  fin.see(0, out(std::as_const(a).Touch()));
  t.use();
  if (how == 1) {
    auto r = std::move(a).Touch();
    SIM_CHECK(!a.Valid(), "valid", "a touched Task is still Valid");
    SIM_CHECK(out(r) == fin.last(0), "final", "Touch() && gives another result");
  } else if (how == 2) {
    a = T{};  // destroys the completed one
  } else if (how == 3) {
    std::vector<T> v;
    v.push_back(std::move(a));
  }
  co_return 1;
}

enum Start : u32 { kGet, kToFuture, kToFutureOn, kDetach, kDetachOn, kReturnedInline, kReturnedRun, kReturnedLazy, kAwaitTask, kAwaitLazily, kAwaitReady, kThread, kStarts };
const char* const kStartName[] = {"Get", "ToFuture", "ToFuture(e)", "Detach", "Detach(e)", "returned from a callback", "returned from Run", "returned from a lazy callback", "co_await", "co_await in a Task", "co_await Await", "ToFuture in a thread"};

// starts s, fin slot 0 sees the result; returns when it has been seen
void start(Lazy& s, Env& env, u32 how, Slots& fin, u32 variant) {
  if (how == kDetach || how == kDetachOn) {
    Latch l{1};
    auto t = std::move(s.t).ThenInline([&fin, &l, t = Tok{60}](R&& r) {
      t.use();
      fin.see(0, out(r));
      l.done();
    });
    env.started.set(1);
    if (how == kDetach) {
      std::move(t).Detach();
    } else {
      std::move(t).Detach(*env.e[std::size_t(env.plan.start_exec)]);
    }
    l.wait();
    return;
  }
  // a callback that owns the not yet started task; the pipeline starts when it is returned
  auto giver = [pe = &env, t = std::move(s.t), k = Tok{61}]() mutable {
    k.use();
    pe->started.set(1);
    return std::move(t);
  };
  auto back = [&] { s.t = giver(); };
  switch (how) {
    case kGet:
      back();
      fin.see(0, out(std::move(s.t).Get()));
      break;
    case kToFuture: {
      back();
      auto f = std::move(s.t).ToFuture();
      if (variant % 2) {
        Wait(f);
        fin.see(0, out(std::as_const(f).Touch()));
      } else {
        fin.see(0, out(std::move(f).ThenInline([](R&& r) { return std::move(r); }).Get()));
      }
      break;
    }
    case kToFutureOn:
      back();
      fin.see(0, out(std::move(s.t).ToFuture(*env.e[std::size_t(env.plan.start_exec)]).Get()));
      break;
    case kReturnedInline:
      fin.see(0, out(yaclib::MakeFuture<void, Err>().ThenInline(std::move(giver)).Get()));
      break;
    case kReturnedRun: {
      auto own = env.ex.make(xPool1);
      auto f = yaclib::Run<Err>(*own, std::move(giver));
      fin.see(0, out(std::move(f).Get()));
      break;
    }
    case kReturnedLazy:
      fin.see(0, out(yaclib::Schedule<Err>(std::move(giver)).Get()));
      break;
    case kAwaitTask: {
      back();
      auto f = awaits(std::move(s.t), fin, Tok{62});
      (void)std::move(f).Get();
      break;
    }
    case kAwaitLazily: {
      back();
      auto t = awaits_lazily(std::move(s.t), fin, Tok{63});
      (void)std::move(t).Get();
      break;
    }
    case kAwaitReady: {
      back();
      auto f = awaits_ready(std::move(s.t), fin, Tok{64}, variant);
      (void)std::move(f).Get();
      break;
    }
    case kThread: {
      back();
      Threads th;
      th.go([&, t = std::move(s.t)]() mutable {
        auto f = std::move(t).ToFuture();
        fin.see(0, out(std::move(f).Get()));
      });
      th.join();
      break;
    }
  }
}

void pipeline_n(int steps) {
  Slots fin{1};
  {
    Accept acc;
    Env env{kLiveKinds, 2, acc.a};
    env.plan = random_plan(env, true, steps);
    const u32 how = sim::gen(kStarts), variant = sim::gen(4);
    if (how == kToFutureOn || how == kDetachOn) env.plan.start_exec = int(sim::gen(2));
    const Expect x = interpret(env, env.plan, true, acc.a);
    env.started.set(0);
    Lazy s;
    build(s, env);
    linger(s, env);
    start(s, env, how, fin, variant);
    env.close();
    env.ex.shutdown();
    SIM_CHECK(fin.count(0) == 1, "final", "%s (%s): the result was delivered %d times", describe(env.plan, true).c_str(), kStartName[how], fin.count(0));
    judge(env, x, fin.last(0), kStartName[how]);
    SIM_CHECK(env.src_runs.get() <= 1, "callbacks-invoked", "the head of %s ran %d times", describe(env.plan, true).c_str(), env.src_runs.get());
    for (auto& e : env.e) SIM_CHECK(e->submitted() == x.submits[e->tag()], "submissions", "%s (%s): executor %d got %d jobs, expected %d", describe(env.plan, true).c_str(), kStartName[how], e->tag(), e->submitted(), x.submits[e->tag()]);
  }
  check_no_live("after the lazy pipeline");
}
void pipeline() { pipeline_n(4); }
void pipeline_short() { pipeline_n(1); }

// the same pipeline, eager
void twin() {
  static const int kTwin[] = {sReady, sRun, sRun, sContract, sAsyncContract, sCoro};
  Slots fin{2};
  {
    Env lazy_env, eager_env;
    lazy_env.plan = random_plan(lazy_env, true, 4);
    eager_env.plan = lazy_env.plan;
    eager_env.plan.src = kTwin[lazy_env.plan.src];
    const u32 how = sim::gen(kStarts), variant = sim::gen(4);
    if (how == kToFutureOn || how == kDetachOn) lazy_env.plan.start_exec = int(sim::gen(2));
    lazy_env.started.set(0);
    Lazy s;
    Eager g;
    Threads th;
    th.go([&] {
      source(g, eager_env);
      for (int i = 0; i < eager_env.plan.n; ++i) attach_step(g, eager_env.plan.s[i], eager_env);
      if (g.on) {
        fin.see(1, out(std::move(g.fo).Get()));
      } else {
        fin.see(1, out(std::move(g.f).Get()));
      }
    });
    build(s, lazy_env);
    linger(s, lazy_env);
    start(s, lazy_env, how, fin, variant);
    th.join();
    lazy_env.close();
    eager_env.close();
    lazy_env.ex.shutdown();
    eager_env.ex.shutdown();
    const std::string d = describe(lazy_env.plan, true);
    SIM_CHECK(fin.count(0) == 1 && fin.last(0) == fin.last(1), "final", "%s (%s): lazy result %c%d, eager %c%d", d.c_str(), kStartName[how], fin.last(0).k, fin.last(0).id, fin.last(1).k, fin.last(1).id);
    for (int i = 0; i < lazy_env.plan.n; ++i) {
      SIM_CHECK(lazy_env.slots.count(i) == eager_env.slots.count(i) && lazy_env.slots.last(i) == eager_env.slots.last(i), "callbacks-invoked", "step %d of %s (%s) ran %d times with %c%d, its eager twin %d times with %c%d", i, d.c_str(),
                kStartName[how], lazy_env.slots.count(i), lazy_env.slots.last(i).k, lazy_env.slots.last(i).id, eager_env.slots.count(i), eager_env.slots.last(i).k, eager_env.slots.last(i).id);
    }
  }
  check_no_live("after the twins");
}

// never started
void destroy() {
  Slots fin{1};
  {
    Accept acc;
    Env env{kLiveKinds, 2, acc.a};
    env.plan = random_plan(env, true, 4);
    env.plan.cancel = true;
    const Expect x = interpret(env, env.plan, true, acc.a);
    env.started.set(0);
    Latch l{1};
    const u32 how = sim::gen(7);
    {
      Lazy s;
      build(s, env);
      linger(s, env);
      auto t = std::move(s.t).ThenInline([&fin, &l, t = Tok{65}](R&& r) {
        t.use();
        fin.see(0, out(r));
        l.done();
      });
      sim::count(sim::kDrop);
      env.started.set(1);
      switch (how) {
        case 0:
          break;  // scope exit
        case 1:
          std::move(t).Cancel();
          break;
        case 2: {
          yaclib::Task<void, Err> other;
          other = std::move(t);
          break;
        }
        case 3: {  // captured by a callback that is dropped
          auto [f, p] = yaclib::MakeContract<void, Err>();
          auto g = std::move(f).ThenInline([t = std::move(t), k = Tok{66}]() mutable { return std::move(t); });
          { auto q = std::move(p); }
          (void)std::move(g).Get();
          break;
        }
        case 4: {  // captured by a step of another Task that is never started
          auto u = yaclib::MakeTask<void, Err>().ThenInline([t = std::move(t), k = Tok{67}]() mutable { return std::move(t); });
          break;
        }
        case 5: {
          Threads th;
          th.go([t = std::move(t)]() mutable { auto u = std::move(t); });
          break;
        }
        default: {  // owned by the frame of a coroutine Task that is never started
          auto c = [](yaclib::Task<void, Err> u, Tok k) -> yaclib::Task<int, Err> {
            co_await Await(u);
            k.use();
            co_return 1;
          };
          auto v = c(std::move(t), Tok{68});
          break;
        }
      }
    }
    l.wait();
    env.close();
    env.ex.shutdown();
    SIM_CHECK(fin.count(0) == 1, "final", "%s (cancelled %u): the last step ran %d times", describe(env.plan, true).c_str(), how, fin.count(0));
    judge(env, x, fin.last(0), "cancelled");
    SIM_CHECK(env.src_runs.get() == 0, "callbacks-invoked", "the head of %s ran although the Task was cancelled", describe(env.plan, true).c_str());
  }
  check_no_live("after the cancelled pipeline");
}

// a Task in other types, forms without a value
void forms() {
  {
    const u32 k = sim::gen(6);
    const bool run = sim::gen(2);
    HostInt ran;
    Execs ex;
    auto e = ex.random(kLiveKinds);
    {
      yaclib::Task<> t;
      switch (k) {
        case 0:
          t = yaclib::MakeTask();
          break;
        case 1:
          t = yaclib::Schedule(*e, [&, k = Tok{1}] { ran.add(1); });
          break;
        case 2:
          t = yaclib::Schedule([&, k = Tok{1}] { ran.add(1); });
          break;
        case 3:
          t = yaclib::LazyContract([&, k = Tok{1}](yaclib::Promise<>&& p) {
            ran.add(1);
            std::move(p).Set();
          });
          break;
        case 4:
          t = [](HostInt& r, Tok) -> yaclib::Task<> {
            r.add(1);
            co_return {};
          }(ran, Tok{1});
          break;
        default:
          t = yaclib::Schedule(*e, [&, k = Tok{1}]() -> yaclib::Task<> {
            return yaclib::Schedule([&, k = Tok{1}] { ran.add(1); });
          });
          break;
      }
      auto u = std::move(t).ThenInline([&, k = Tok{2}] {
        k.use();
        ran.add(10);
      });
      auto v = std::move(u).Then(*e, [&, k = Tok{3}]() -> yaclib::Result<int> {
        k.use();
        ran.add(100);
        return 3;
      });
      for (u32 i = sim::gen(3); i > 0; --i) sim::yield();
      SIM_CHECK(ran.get() == 0 && e->submitted() == 0, "early", "a Task ran before it was started");
      if (run) {
        auto r = std::move(v).Get();
        SIM_CHECK(r.State() == yaclib::ResultState::Value && std::as_const(r).Value() == 3, "final", "wrong result");
        SIM_CHECK(ran.get() == (k == 0 ? 110 : 111), "callbacks-invoked", "steps of a started Task: %d", ran.get());
      }
    }
    ex.shutdown();
    if (!run) SIM_CHECK(ran.get() == 0, "callbacks-invoked", "value callbacks of a never started Task ran: %d", ran.get());
    e = nullptr;
  }
  check_no_live("after a Task");
}

sim::Workload a{"c12/pipeline", "C12", pipeline, sim::kAll, 4};
sim::Workload b{"c12/short", "C12", pipeline_short, sim::kAll, 2};
sim::Workload c{"c12/twin", "C12", twin, sim::kAll, 2};
sim::Workload d{"c12/destroy", "C12", destroy, sim::kAll, 3};
sim::Workload e{"c12/forms", "C12", forms, sim::kAll, 1};
}  // namespace
