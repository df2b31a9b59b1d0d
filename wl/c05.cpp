// C05: steps run where they were told; a refused step sees StopError and the rest still completes.
#include "chain.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/share.hpp>

namespace {
using namespace kit;

void judge(Env& env, const Expect& x, Out got, bool lazy) {
  const Plan& p = env.plan;
  const std::string d = describe(p, lazy);
  for (int i = 0; i < p.n; ++i) {
    SIM_CHECK(env.slots.count(i) == x.calls[i], "callbacks-invoked", "step %d of %s ran %d times, expected %d", i, d.c_str(), env.slots.count(i), x.calls[i]);
    if (x.calls[i]) SIM_CHECK(env.slots.last(i) == x.input[i], "callback-input", "step %d of %s got %c%d, expected %c%d", i, d.c_str(), env.slots.last(i).k, env.slots.last(i).id, x.input[i].k, x.input[i].id);
    if (x.calls[i] && x.on[i] >= 0) {
      SIM_CHECK(env.at[i].get() == x.on[i], "where", "step %d of %s ran in executor %s, expected %s", i, d.c_str(), env.ex.name(env.at[i].get()), env.ex.name(x.on[i]));
    }
  }
  SIM_CHECK(got == x.final, "final", "%s: result %c%d, expected %c%d", d.c_str(), got.k, got.id, x.final.k, x.final.id);
}
void judge_submits(Env& env, const Expect& x, bool lazy) {
  for (auto& e : env.e) {
    SIM_CHECK(e->submitted() == x.submits[e->tag()], "submissions", "%s: executor %d got %d jobs, expected %d", describe(env.plan, lazy).c_str(), e->tag(), e->submitted(), x.submits[e->tag()]);
    SIM_CHECK(e->called() + e->dropped() == e->submitted(), "lost", "executor %d: %d jobs submitted, %d called, %d dropped", e->tag(), e->submitted(), e->called(), e->dropped());
  }
}

struct Accept {
  int a[2];
  Accept() {
    for (int& x : a) {
      const u32 k = sim::gen(4);
      x = k < 2 ? -1 : k == 2 ? 0 : 1 + int(sim::gen(3));
    }
  }
};

void eager() {
  Accept acc;
  Env env{kLiveKinds, 2, acc.a};
  auto last = env.ex.random(kLiveKinds);
  env.plan = random_plan(env, false, 5);
  const Expect x = interpret(env, env.plan, false, acc.a);
  Eager s;
  Slots fin{1};
  {
    source(s, env);
    for (int i = 0; i < env.plan.n; ++i) {
      if (env.plan.delay > 1) sim::yield();
      attach_step(s, env.plan.s[i], env);
    }
    int mode = int(sim::gen(mModesObserved));
    if (s.on) {
      consume<FO>(std::move(s.fo), mode, Watch{&fin, 0}, *last);
    } else {
      consume<F>(std::move(s.f), mode, Watch{&fin, 0}, *last);
    }
  }
  env.close();
  env.ex.shutdown();
  SIM_CHECK(fin.count(0) == 1, "final", "%s: the result was delivered %d times", describe(env.plan, false).c_str(), fin.count(0));
  judge(env, x, fin.last(0), false);
  judge_submits(env, x, false);
}

void lazy() {
  Accept acc;
  Env env{kLiveKinds, 2, acc.a};
  env.plan = random_plan(env, true, 5);
  const Expect x = interpret(env, env.plan, true, acc.a);
  Lazy s;
  source(s, env);
  for (int i = 0; i < env.plan.n; ++i) attach_step(s, env.plan.s[i], env);
  SIM_CHECK(env.e[0]->submitted() + env.e[1]->submitted() == 0, "submissions", "a lazy pipeline submitted a job before it was started");
  const u32 how = sim::gen(3);
  Slots fin{1};
  if (how == 0) {
    fin.see(0, out(std::move(s.t).Get()));
  } else if (how == 1) {
    fin.see(0, out(std::move(s.t).ToFuture().Get()));
  } else {
    auto last = env.ex.random(kLiveKinds);
    Latch l{1};
    std::move(s.t).Then(*last, [&](R&& r) {
      SIM_CHECK(top_tag() == last->tag(), "where", "the last step ran outside of its executor");
      fin.see(0, out(r));
      l.done();
    }).Detach();
    l.wait();
  }
  env.close();
  env.ex.shutdown();
  judge(env, x, fin.last(0), true);
  judge_submits(env, x, true);
}

// the terminal forms Detach(e, f) / DetachInline / Subscribe(e, f) / Detach(f) on an inherited executor, shared pipelines
void terminal() {
  Execs ex;
  const int refuse = int(sim::gen(4)) == 3 ? 0 : -1;
  auto e0 = ex.random(kLiveKinds), e1 = ex.random(kLiveKinds, refuse);
  const Out o = random_out(true);
  const Out want = expected<Val, Err>(o);
  const u32 form = sim::gen(6), how = sim::gen(9), src = sim::gen(3);
  const int delay = int(sim::gen(4));
  Slots s{2};
  HostInt tag{-2};
  const Out seen = refuse == 0 && how != 1 && how != 4 ? stopped() : want;
  const bool inl = how == 1 || how == 4;
  {
    Latch l{1};
    auto cb = [&, t = Tok{1}](R&& r) {
      t.use();
      tag.set(top_tag());
      s.see(0, out(r));
      l.done();
    };
    auto cbs = [&, t = Tok{2}](const R& r) {
      t.use();
      tag.set(top_tag());
      s.see(0, out(r));
      l.done();
    };
    Threads th;
    if (how < 4) {
      auto go = [&](auto f, auto p) {
        th.go([&, p = std::move(p)]() mutable {
          for (int i = 0; i < delay; ++i) sim::yield();
          fulfil<P, Val, Err>(std::move(p), o, form);
        });
        if (src == 2) sim::yield();
        if (how == 0) {
          std::move(f).Detach(*e1, std::move(cb));
        } else if (how == 1) {
          std::move(f).DetachInline(std::move(cb));
        } else if (how == 2) {
          if constexpr (std::is_same_v<std::decay_t<decltype(f)>, FO>) {
            std::move(f).Detach(std::move(cb));
          } else {
            std::move(f).Detach(*e1, std::move(cb));
          }
        } else {
          std::move(f).Detach(*e1, std::move(cb));
        }
      };
      if (src == 0) {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        go(std::move(f), std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(how == 2 ? *e1 : *e0);
        go(std::move(f), std::move(p));
      }
    } else if (how == 6) {
      auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(*e1);
      th.go([&, p = std::move(p)]() mutable {
        for (int i = 0; i < delay; ++i) sim::yield();
        fulfil<SP, Val, Err>(std::move(p), o, form);
      });
      f.Subscribe(std::move(cbs));
    } else {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      th.go([&, p = std::move(p)]() mutable {
        for (int i = 0; i < delay; ++i) sim::yield();
        fulfil<SP, Val, Err>(std::move(p), o, form);
      });
      if (how == 4) {
        f.SubscribeInline(std::move(cbs));
      } else if (how == 5) {
        f.Subscribe(*e1, std::move(cbs));
      } else if (how == 7) {
        f.Then(*e1, [](const R& r) { return R{r}; }).Detach(std::move(cb));
      } else {
        f.ThenInline([](const R& r) { return R{r}; }).Then(*e1, [](R&& r) { return std::move(r); }).Detach(std::move(cb));
      }
    }
    l.wait();
    th.join();
  }
  ex.shutdown();
  SIM_CHECK(s.count(0) == 1, "exactly-once", "a terminal step (%u) ran %d times", how, s.count(0));
  SIM_CHECK(s.last(0) == seen, "final", "a terminal step (%u) saw %c%d instead of %c%d", how, s.last(0).k, s.last(0).id, seen.k, seen.id);
  const int subs = inl ? 0 : how >= 7 ? 2 : 1;
  SIM_CHECK(e0->submitted() == 0, "submissions", "an executor that was never named for a step got %d jobs", e0->submitted());
  SIM_CHECK(e1->submitted() == subs, "submissions", "form %u: the named executor got %d jobs instead of %d", how, e1->submitted(), subs);
  if (subs && refuse != 0) SIM_CHECK(tag.get() == e1->tag(), "where", "a terminal step (%u) ran outside of its executor", how);
  e0 = e1 = nullptr;
  check_no_live("after the pipeline");
}

// coroutines: after co_await On(e) the body executes inside e; a refusing executor ends it with StopError
yaclib::Future<int, Err> hop(std::vector<ProxyPtr>& e, const int* path, int n, const u32* kind, Slots& s, Tok t) {
  int cur = -1;
  for (int i = 0; i < n; ++i) {
    Tok local{i};
    switch (cur >= 0 ? kind[i] : 0) {
      case 1:
        co_await yaclib::kYield;
        break;
      case 2: {
        auto& x = co_await yaclib::Yield();
        SIM_CHECK(&x == e[std::size_t(cur)].Get(), "where", "Yield returned a foreign executor");
        break;
      }
      case 3: {
        auto& x = co_await yaclib::CurrentExecutor();
        SIM_CHECK(&x == e[std::size_t(cur)].Get(), "where", "CurrentExecutor returned a foreign executor");
        break;
      }
      default:
        cur = path[i];
        co_await On(*e[std::size_t(cur)]);
        break;
    }
    SIM_CHECK(top_tag() == e[std::size_t(cur)]->tag(), "where", "hop %d of a coroutine runs outside of the executor it asked for", i);
    s.see(i, value(cur));
    local.use();
  }
  t.use();
  co_return 7;
}
void coroutine() {
  Execs ex;
  std::vector<ProxyPtr> e;
  const int n = 1 + int(sim::gen(5));
  int acc[2], path[5];
  u32 kind[5];
  for (int i = 0; i < 2; ++i) {
    const u32 k = sim::gen(4);
    acc[i] = k < 2 ? -1 : k == 2 ? 0 : 1 + int(sim::gen(3));
    e.push_back(ex.random(kLiveKinds, acc[i]));
  }
  for (int i = 0; i < n; ++i) {
    path[i] = int(sim::gen(2));
    kind[i] = sim::gen(4);
  }
  int reached = 0, subs[2] = {}, left[2] = {acc[0], acc[1]}, cur = -1;
  bool stop = false;
  for (int i = 0; i < n && !stop; ++i) {
    const u32 k = cur >= 0 ? kind[i] : 0;
    if (k == 0) cur = path[i];
    if (k != 3) {
      ++subs[cur];
      if (left[cur] == 0) stop = true;
      if (left[cur] > 0) --left[cur];
    }
    if (!stop) ++reached;
  }
  Slots s{6};
  {
    auto f = hop(e, path, n, kind, s, Tok{9});
    auto r = std::move(f).ThenInline([](yaclib::Result<int, Err>&& q) { return std::move(q); }).Get();
    SIM_CHECK(out(r) == (stop ? stopped() : value(7)), "final", "a coroutine that %s ended with %c%d", stop ? "was refused" : "was accepted everywhere", out(r).k, out(r).id);
  }
  for (int i = 0; i < n; ++i) SIM_CHECK(s.count(i) == (i < reached ? 1 : 0), "exactly-once", "hop %d was reached %d times", i, s.count(i));
  ex.shutdown();
  for (int i = 0; i < 2; ++i) SIM_CHECK(e[std::size_t(i)]->submitted() == subs[i], "submissions", "executor %d got %d submissions from a coroutine, expected %d", i, e[std::size_t(i)]->submitted(), subs[i]);
  e.clear();
  check_no_live("after the coroutine");
}

// One SharedFutureOn, many steps without an executor of their own: all of them inherit its executor, whoever attached before.
void shared() {
  Execs ex;
  const bool no0 = sim::genp(1, 6), no1 = sim::genp(1, 6);  // refuses everything
  auto e0 = ex.random(kLiveKinds, no0 ? 0 : -1), e1 = ex.random(kLiveKinds, no1 ? 0 : -1);
  const u32 src = sim::gen(no0 ? 2 : 4);
  const Out o = random_out(src < 2);
  const Out want = expected<Val, Err>(o);
  const u32 form = sim::gen(6);
  const int n = 1 + int(sim::gen(5)), threads = 1 + int(sim::gen(2));
  static const char* const names[] = {"Then(f)", "ThenInline(f)", "Then(e, f)", "Subscribe(f)", "Subscribe(e, f)", "SubscribeInline(f)"};
  u32 kind[5], next[5];
  int subs[2] = {src >= 2, 0};
  for (int i = 0; i < n; ++i) {
    kind[i] = sim::gen(6);
    next[i] = sim::gen(5);
    const bool first_on_1 = kind[i] == 2 || kind[i] == 4;
    if (kind[i] != 1 && kind[i] != 5) ++subs[first_on_1];
    if (kind[i] < 3 && (next[i] == 1 || next[i] == 4)) ++subs[first_on_1];  // inherited
    if (kind[i] < 3 && next[i] >= 3) ++subs[1];
  }
  Slots s{10};
  HostInt at[10];
  {
    Latch l{n};
    Threads th;
    auto attach = [&](const yaclib::SharedFutureOn<Val, Err>& f, int i) {
      auto cb = [&, i, t = Tok{i}](const R& r) {
        t.use();
        at[i].set(top_tag());
        s.see(i, out(r));
        return R{r};
      };
      auto second = [&, i, t = Tok{10 + i}](R&& r) {
        t.use();
        at[5 + i].set(top_tag());
        s.see(5 + i, out(r));
        return std::move(r);
      };
      auto end = [&](auto g) {
        auto done = [&, t = Tok{20 + i}](R&&) {
          t.use();
          l.done();
        };
        switch (next[i]) {
          case 1:
            return std::move(g).Then(std::move(second)).DetachInline(std::move(done));
          case 2:
            return std::move(g).ThenInline(std::move(second)).DetachInline(std::move(done));
          case 3:
            return std::move(g).Then(*e1, std::move(second)).DetachInline(std::move(done));
          case 4:
            return std::move(g).Then(std::move(second)).Then(*e1, [](R&& r) { return std::move(r); }).DetachInline(std::move(done));
          default:
            return std::move(g).DetachInline(std::move(done));
        }
      };
      auto only = [&](auto f) {
        return [&, f = std::move(f)](const R& r) mutable {
          std::ignore = f(r);
          l.done();
        };
      };
      switch (kind[i]) {
        case 0:
          return end(f.Then(std::move(cb)));
        case 1:
          return end(f.ThenInline(std::move(cb)));
        case 2:
          return end(f.Then(*e1, std::move(cb)));
        case 3:
          return f.Subscribe(only(std::move(cb)));
        case 4:
          return static_cast<const yaclib::SharedFutureBase<Val, Err>&>(f).Subscribe(*e1, only(std::move(cb)));  // hidden by Subscribe(f)
        default:
          return f.SubscribeInline(only(std::move(cb)));
      }
    };
    auto go = [&](yaclib::SharedFutureOn<Val, Err> f) {
      for (int k = 0; k < threads; ++k) {
        th.go([&, f, k] {
          for (int i = k; i < n; i += threads) attach(f, i);
        });
      }
    };
    if (src < 2) {
      auto [f, p] = yaclib::MakeSharedContractOn<Val, Err>(*e0);
      if (src == 1) {
        go(std::move(f));
        pause(3);
        fulfil<SP, Val, Err>(std::move(p), o, form);
      } else {
        th.go([&, p = std::move(p)]() mutable { fulfil<SP, Val, Err>(std::move(p), o, form); });
        pause(3);
        go(std::move(f));
      }
    } else if (src == 2) {
      go(yaclib::RunShared<Err>(*e0, [&] { return make_result<Val, Err>(o); }));
    } else {
      go(yaclib::AsyncSharedContract<Val, Err>(*e0, [&](SP&& p) { fulfil<SP, Val, Err>(std::move(p), o, form); }));
    }
    l.wait();
    th.join();
  }
  ex.shutdown();
  const bool no[2] = {no0, no1};
  for (int i = 0; i < n; ++i) {
    const int on = kind[i] == 1 || kind[i] == 5 ? -1 : kind[i] == 2 || kind[i] == 4;
    const Out seen = on >= 0 && no[on] ? stopped() : want;
    SIM_CHECK(s.count(i) == 1, "exactly-once", "%s ran %d times", names[kind[i]], s.count(i));
    SIM_CHECK(s.last(i) == seen, "final", "%s saw %c%d instead of %c%d", names[kind[i]], s.last(i).k, s.last(i).id, seen.k, seen.id);
    if (on >= 0 && !no[on]) SIM_CHECK(at[i].get() == (on ? e1 : e0)->tag(), "where", "%s of a SharedFutureOn ran in executor %s", names[kind[i]], ex.name(at[i].get()));
    if (kind[i] >= 3 || next[i] == 0) continue;
    const int on2 = next[i] == 2 ? -1 : next[i] == 3 ? 1 : kind[i] == 2;
    const Out seen2 = on2 >= 0 && no[on2] ? stopped() : seen;
    SIM_CHECK(s.count(5 + i) == 1, "exactly-once", "the step after %s ran %d times", names[kind[i]], s.count(5 + i));
    SIM_CHECK(s.last(5 + i) == seen2, "final", "the step after %s saw %c%d instead of %c%d", names[kind[i]], s.last(5 + i).k, s.last(5 + i).id, seen2.k, seen2.id);
    if (on2 >= 0 && !no[on2]) SIM_CHECK(at[5 + i].get() == (on2 ? e1 : e0)->tag(), "where", "the step after %s of a SharedFutureOn ran in executor %s", names[kind[i]], ex.name(at[5 + i].get()));
  }
  SIM_CHECK(e0->submitted() == subs[0] && e1->submitted() == subs[1], "submissions", "the executors got %d and %d jobs instead of %d and %d", e0->submitted(), e1->submitted(), subs[0], subs[1]);
  e0 = e1 = nullptr;
  check_no_live("after the pipeline");
}

// A future that was made on an executor and is fulfilled by Share or Connect: its steps run there.
void share() {
  Execs ex;
  const bool no0 = sim::genp(1, 6);
  auto e0 = ex.random(kLiveKinds, no0 ? 0 : -1);
  const Out o = random_out(true);
  const Out want = expected<Val, Err>(o);
  const u32 form = sim::gen(6), how = sim::gen(4), next = sim::gen(3);
  const bool early = sim::genp(1, 2);
  static const char* const names[] = {"Share(future, e)", "Share(promise, e)", "Connect(future, promise)", "Connect(shared future, promise)"};
  Slots s{1};
  HostInt at{-1};
  {
    Latch l{1};
    Threads th;
    auto go = [&](yaclib::FutureOn<Val, Err> f) {
      auto cb = [&, t = Tok{1}](R&& r) {
        t.use();
        at.set(top_tag());
        s.see(0, out(r));
        l.done();
      };
      switch (next) {
        case 0:
          return std::move(f).Detach(std::move(cb));
        case 1:
          return std::move(f).Then([cb = std::move(cb)](R&& r) mutable { cb(std::move(r)); }).Detach();
        default:
          return std::move(f).ThenInline([](R&& r) { return std::move(r); }).Then([cb = std::move(cb)](R&& r) mutable { cb(std::move(r)); }).Detach();
      }
    };
    auto set = [&](auto p) {
      if (early) return fulfil<decltype(p), Val, Err>(std::move(p), o, form);
      th.go([&, p = std::move(p)]() mutable { fulfil<decltype(p), Val, Err>(std::move(p), o, form); });
      pause(3);
    };
    switch (how) {
      case 0: {
        auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
        set(std::move(p));
        go(Share(f, *e0));
        break;
      }
      case 1: {
        auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
        auto g = Share(p, *e0);
        set(std::move(p));
        go(std::move(g));
        break;
      }
      case 2: {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        auto [g, q] = yaclib::MakeContractOn<Val, Err>(*e0);
        set(std::move(p));
        Connect(std::move(f), std::move(q));
        go(std::move(g));
        break;
      }
      default: {
        auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
        auto [g, q] = yaclib::MakeContractOn<Val, Err>(*e0);
        set(std::move(p));
        Connect(f, std::move(q));
        go(std::move(g));
        break;
      }
    }
    l.wait();
    th.join();
  }
  ex.shutdown();
  const Out seen = no0 ? stopped() : want;
  SIM_CHECK(s.count(0) == 1, "exactly-once", "the step after %s ran %d times", names[how], s.count(0));
  SIM_CHECK(s.last(0) == seen, "final", "the step after %s saw %c%d instead of %c%d", names[how], s.last(0).k, s.last(0).id, seen.k, seen.id);
  if (!no0) SIM_CHECK(at.get() == e0->tag(), "where", "the step after %s ran in executor %s", names[how], ex.name(at.get()));
  SIM_CHECK(e0->submitted() == 1, "submissions", "the executor of %s got %d jobs", names[how], e0->submitted());
  e0 = nullptr;
  check_no_live("after the pipeline");
}

sim::Workload f{"c05/share", "C05", share, sim::kAll, 1};
sim::Workload e_{"c05/shared", "C05", shared, sim::kAll, 3};
sim::Workload a{"c05/eager", "C05", eager, sim::kAllButLeak, 4};
sim::Workload b{"c05/lazy", "C05", lazy, sim::kAllButLeak, 3};
sim::Workload c{"c05/terminal", "C05", terminal, sim::kAll, 2};
sim::Workload d{"c05/coroutine", "C05", coroutine, sim::kAll, 2};
}  // namespace
