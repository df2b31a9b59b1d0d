// C02: the pipeline computes what its steps say. Generated chains against a sequential interpreter.
#include "chain.hpp"

namespace {
using namespace kit;

void compare(Env& env, const Expect& x, Out got, bool lazy) {
  const Plan& p = env.plan;
  for (int i = 0; i < p.n; ++i) {
    SIM_CHECK(env.slots.count(i) == x.calls[i], "callbacks-invoked", "step %d of %s ran %d times, expected %d", i, describe(p, lazy).c_str(), env.slots.count(i), x.calls[i]);
    if (x.calls[i]) SIM_CHECK(env.slots.last(i) == x.input[i], "callback-input", "step %d of %s got %c%d, expected %c%d", i, describe(p, lazy).c_str(), env.slots.last(i).k, env.slots.last(i).id, x.input[i].k, x.input[i].id);
  }
  SIM_CHECK(got == x.final, "final", "%s: result %c%d, expected %c%d", describe(p, lazy).c_str(), got.k, got.id, x.final.k, x.final.id);
  SIM_CHECK(!env.disorder.get(), "order", "%s: steps ran out of order", describe(p, lazy).c_str());
}

void eager_n(int steps, u32 rets) {
  Env env;
  env.plan = random_plan(env, false, steps, rets);
  const Expect x = interpret(env, env.plan, false, nullptr);
  Eager s;
  Slots fin{1};
  {
    source(s, env);
    for (int i = 0; i < env.plan.n; ++i) {
      if (env.plan.delay > 1) sim::yield();
      attach_step(s, env.plan.s[i], env);
    }
    const int mode = int(sim::gen(mModesObserved));
    if (s.on) {
      consume<FO>(std::move(s.fo), mode, Watch{&fin, 0}, *env.e[0]);
    } else {
      consume<F>(std::move(s.f), mode, Watch{&fin, 0}, *env.e[0]);
    }
  }
  env.close();
  env.ex.shutdown();
  SIM_CHECK(fin.count(0) == 1, "final", "%s: the result was delivered %d times", describe(env.plan, false).c_str(), fin.count(0));
  compare(env, x, fin.last(0), false);
}
void eager() { eager_n(4, (1u << rRets) - 1); }
void eager_one() { eager_n(1, (1u << rRets) - 1); }
void eager_tasks() { eager_n(2, 1u << rTask | 1u << rVal); }

void lazy_n(int steps) {
  Env env;
  env.plan = random_plan(env, true, steps);
  const Expect x = interpret(env, env.plan, true, nullptr);
  Lazy s;
  source(s, env);
  for (int i = 0; i < env.plan.n; ++i) attach_step(s, env.plan.s[i], env);
  const Out got = out(std::move(s.t).Get());
  env.close();
  env.ex.shutdown();
  compare(env, x, got, true);
}
void lazy() { lazy_n(4); }

sim::Workload a{"c02/eager", "C02", eager, sim::kAllButLeak, 4};
sim::Workload b{"c02/eager_one", "C02", eager_one, sim::kAllButLeak, 2};
sim::Workload c{"c02/eager_tasks", "C02", eager_tasks, sim::kAllButLeak, 2};
sim::Workload d{"c02/lazy", "C02", lazy, sim::kAllButLeak, 3};
}  // namespace
