// Plan generator, reference interpreter, environment, sources of generated pipelines.
#include "chain.hpp"

namespace kit {

Env::Env(u32 mask, int execs, const int* accept) {
  for (int i = 0; i < execs; ++i) e.push_back(ex.random(mask, accept != nullptr ? accept[i] : -1));
  order.set(-1);
  for (auto& a : at) a.set(-2);
  th.go([this] {
    std::unique_lock l{m};
    for (;;) {
      while (!todo.empty()) {
        Todo t = std::move(todo.front());
        todo.pop_front();
        l.unlock();
        if (t.p.Valid()) {
          fulfil<P, Val, Err>(std::move(t.p), t.o, t.form);
        } else {
          fulfil<SP, Val, Err>(std::move(t.sp), t.o, t.form);
        }
        l.lock();
      }
      if (closing) return;
      cv.wait(l);
    }
  });
}
void Env::close() {
  {
    std::lock_guard l{m};
    closing = true;
    cv.notify_all();
  }
  th.join();
}
Env::~Env() {
  close();
  e.clear();
}
void Env::later(P p, Out o, u32 form) {
  std::lock_guard l{m};
  todo.push_back({std::move(p), {}, o, form});
  cv.notify_one();
}
void Env::later(SP p, Out o, u32 form) {
  std::lock_guard l{m};
  todo.push_back({{}, std::move(p), o, form});
  cv.notify_one();
}
void Env::enter(const Step& st, Out in) {
  if (!started.get()) early.set(1);
  slots.see(st.id, in);
  at[st.id].set(top_tag());
  if (order.get() >= st.id) disorder.set(1);
  order.set(st.id);
}

Plan random_plan(Env& env, bool lazy, int max_steps, u32 ret_mask) {
  Plan p;
  const u32 nx = u32(env.e.size());
  p.src = int(sim::gen(lazy ? u32(lSrcs) : u32(sSrcs)));
  p.src_exec = int(sim::gen(nx));
  p.src_out = random_out(true);
  p.form = sim::gen(6);
  p.delay = int(sim::gen(4));
  if (p.src_out.k == 'D' && (lazy ? (p.src != lLazyContract && p.src != lLazyContractOn) : (p.src == sReady || p.src == sRun || p.src == sCoro))) p.src_out = value(2);
  p.n = sim::genp(1, 16) ? kMaxSteps - int(sim::gen(18)) : int(sim::gen(u32(max_steps) + 1));
  int rets[rRets];
  u32 nr = 0;
  for (int r = 0; r < rRets; ++r) {
    if (ret_mask & (1u << r)) rets[nr++] = r;
  }
  for (int i = 0; i < p.n; ++i) {
    Step& s = p.s[i];
    s.id = i;
    s.attach = int(sim::gen(aKinds));
    s.exec = int(sim::gen(nx));
    static const int kArgW[] = {gVal, gResult, gErr, gExc, gVal, gResult, gValConst, gResultConst};
    s.arg = kArgW[sim::gen(8)];
    s.ret = rets[sim::gen(nr)];
    s.outk = "VVVVEXTD"[sim::gen(8)];
    s.inner = int(sim::gen(kInner));
    s.inner_exec = int(sim::gen(nx));
    if (s.outk == 'D') {
      const bool droppable = s.ret == rFuture || s.ret == rShared;
      if (!droppable) s.outk = 'V';
    }
    if (s.ret == rVal || s.ret == rVoidPair) {
      if (s.outk != 'V') s.outk = 'T';
    }
    // const reference arguments are only instantiated for plain return kinds
    if ((s.arg == gValConst || s.arg == gResultConst) && s.ret != rVal && s.ret != rResult) s.arg = s.arg == gValConst ? gVal : gResult;
    // a recovery callback must keep the value type, so no void pair there
    if (s.ret == rVoidPair && s.arg != gVal && s.arg != gResult) s.arg = gVal;
  }
  return p;
}

static bool is_on(const Plan& p, int upto, bool lazy) {  // does the eager chain carry a FutureOn before step `upto`
  if (lazy) return true;
  bool on = p.src == sContractOn || p.src == sRun || (p.src == sAsyncContract);
  for (int i = 0; i < upto; ++i) {
    if (p.s[i].attach != aInline) on = true;
  }
  return on;
}

Expect interpret(const Env& env, const Plan& p, bool lazy, const int* accept) {
  Expect x;
  for (auto& o : x.on) o = -1;
  int left[8];
  for (std::size_t i = 0; i < 8; ++i) left[i] = accept != nullptr && i < env.e.size() ? accept[i] : -1;
  // one more submission to e: is it refused?
  auto submit = [&](int e) {
    ++x.submits[env.e[std::size_t(e)]->tag()];
    if (left[e] == 0) return true;
    if (left[e] > 0) --left[e];
    return false;
  };
  auto tag = [&](int e) { return env.e[std::size_t(e)]->tag(); };
  Out cur = p.src_out.k == 'D' ? kit::stopped() : p.src_out;
  int chain_exec = -1;  // index into env.e of the inherited executor; -1: inline
  constexpr int kStopped = -2;  // the inherited executor refuses everything
  if (lazy && p.cancel) {
    cur = kit::stopped();
    chain_exec = kStopped;
  } else if (lazy && p.start_exec >= 0) {
    chain_exec = p.start_exec;
    if (submit(p.start_exec)) cur = kit::stopped();
  } else if (lazy) {
    if (p.src == lSchedule || p.src == lLazyContractOn) {
      chain_exec = p.src_exec;
      if (submit(p.src_exec)) cur = kit::stopped();
    }
  } else {
    if (p.src == sContractOn) chain_exec = p.src_exec;
    if (p.src == sRun || p.src == sAsyncContract) {
      chain_exec = p.src_exec;
      if (submit(p.src_exec)) cur = kit::stopped();
    }
  }
  for (int i = 0; i < p.n; ++i) {
    const Step& s = p.s[i];
    const bool on = is_on(p, i, lazy);
    int where = -1;
    bool refused = false;
    if (s.attach != aInline) {
      where = s.attach == aThenE || !on ? s.exec : chain_exec;
      if (where >= 0) {
        chain_exec = where;
        refused = submit(where);
      } else if (where == kStopped) {
        refused = true;
      }
      if (refused) cur = kit::stopped();
    }
    bool run = false;
    switch (s.arg) {
      case gVal:
      case gValConst:
        run = cur.k == 'V';
        break;
      case gResult:
      case gResultConst:
        run = true;
        break;
      case gErr:
        run = cur.k == 'E';
        break;
      case gExc:
        run = cur.k == 'X';
        break;
    }
    if (!run) continue;
    x.calls[i] = 1;
    x.input[i] = cur;
    if (where >= 0 && !refused) x.on[i] = tag(where);
    Out o = env.produce(s, cur);
    bool inner_dead = false;
    if (s.outk != 'T') {
      int subs = 0;
      if (s.ret == rFutureOn && s.inner % 3 != 2) subs = 1;
      if (s.ret == rFuture && s.outk != 'D' && s.inner % 4 == 3) subs = 1;
      if (s.ret == rShared && s.outk != 'D' && s.inner % 4 == 3) subs = 1;
      if (s.ret == rTask) {
        static const int n[kInner] = {0, 1, 0, 1, 0, 0, 2, 1, 0};
        subs = n[s.inner];
      }
      if (s.ret == rCoro && s.inner % 3 != 0) subs = 1;
      for (int k = 0; k < subs; ++k) inner_dead = submit(s.inner_exec) || inner_dead;
    }
    if (inner_dead) o = kit::stopped();
    cur = o.k == 'D' ? kit::stopped() : o;
  }
  x.final = cur;
  return x;
}

std::string describe(const Plan& p, bool lazy) {
  static const char* const src[] = {"ready", "contract", "contractOn", "run", "asyncContract", "coro", "shared"};
  static const char* const lsrc[] = {"MakeTask", "Schedule(e)", "Schedule", "LazyContract", "LazyContract(e)", "coro"};
  static const char* const at[] = {"ThenInline", "Then(e)", "Then"};
  static const char* const ar[] = {"Val", "Result", "Err", "exception_ptr", "const Val&", "const Result&"};
  static const char* const rt[] = {"Val", "Result", "void", "Future", "FutureOn", "SharedFuture", "Task", "coro"};
  char b[160];
  std::snprintf(b, sizeof b, "%s[x%d] %c%d", lazy ? lsrc[p.src] : src[p.src], p.src_exec, p.src_out.k, p.src_out.id);
  std::string r = b;
  for (int i = 0; i < p.n; ++i) {
    const Step& s = p.s[i];
    std::snprintf(b, sizeof b, " .%s[x%d](%s->%s %c inner %d[x%d])", at[s.attach], s.exec, ar[s.arg], rt[s.ret], s.outk, s.inner, s.inner_exec);
    r += b;
  }
  return r;
}

template <typename S>
void attach_step(S& s, const Step& st, Env& env) {
  switch (st.ret) {
    case rVal:
      return attach_val(s, st, env);
    case rResult:
      return attach_result(s, st, env);
    case rVoidPair:
      return attach_void(s, st, env);
    case rFuture:
      return attach_future(s, st, env);
    case rFutureOn:
      return attach_future_on(s, st, env);
    case rShared:
      return attach_shared(s, st, env);
    case rTask:
      return attach_task(s, st, env);
    case rCoro:
      return attach_coro(s, st, env);
  }
}
template void attach_step<Eager>(Eager&, const Step&, Env&);
template void attach_step<Lazy>(Lazy&, const Step&, Env&);

static F src_coro(Env& env, Tok t) {
  t.use();
  const Out o = env.plan.src_out;
  if (o.k == 'X') throw Boom{o.id};
  auto r = make_result<Val, Err>(o);
  co_return std::move(r);
}
static T src_task_coro(Env& env, Tok t) {
  if (!env.started.get()) env.early.set(1);
  env.src_runs.add(1);
  t.use();
  const Out o = env.plan.src_out;
  if (o.k == 'X') throw Boom{o.id};
  auto r = make_result<Val, Err>(o);
  co_return std::move(r);
}

static R src_func(Env* env, const Tok& t) {
  if (!env->started.get()) env->early.set(1);
  env->src_runs.add(1);
  t.use();
  const Out o = env->plan.src_out;
  if (o.k == 'X' && env->plan.form % 2 == 0) {
    sim::count(sim::kThrow);
    throw Boom{o.id};
  }
  return make_result<Val, Err>(o);
}

void source(Eager& s, Env& env) {
  const Plan& p = env.plan;
  auto& e = *env.e[std::size_t(p.src_exec)];
  const Out o = p.src_out;
  Env* pe = &env;
  switch (p.src) {
    case sReady:
      if (o.k == 'V') {
        s.f = yaclib::MakeFuture<Val, Err>(Val{o.id});
      } else if (o.k == 'E') {
        s.f = yaclib::MakeFuture<Val, Err>(Err{o.id});
      } else {
        s.f = yaclib::MakeFuture<Val, Err>(boom(o.id));
      }
      break;
    case sContract: {
      auto [f, pr] = yaclib::MakeContract<Val, Err>();
      s.f = std::move(f);
      env.later(std::move(pr), o, p.form);
      break;
    }
    case sContractOn: {
      auto [f, pr] = yaclib::MakeContractOn<Val, Err>(e);
      s.fo = std::move(f);
      s.on = true;
      env.later(std::move(pr), o, p.form);
      break;
    }
    case sRun:
      s.fo = yaclib::Run<Err>(e, [pe, t = Tok{1}] { return src_func(pe, t); });
      s.on = true;
      break;
    case sAsyncContract:
      s.fo = yaclib::AsyncContract<Val, Err>(e, [pe, t = Tok{1}](P&& pr) {
        t.use();
        if (pe->plan.form % 2) {
          pe->later(std::move(pr), pe->plan.src_out, pe->plan.form);
        } else if (pe->plan.src_out.k == 'X') {
          throw Boom{pe->plan.src_out.id};
        } else {
          fulfil<P, Val, Err>(std::move(pr), pe->plan.src_out, pe->plan.form);
        }
      });
      s.on = true;
      break;
    case sCoro:
      s.f = src_coro(env, Tok{1});
      break;
    case sShared: {
      auto [f, pr] = yaclib::MakeSharedContract<Val, Err>();
      if (p.form % 2) {
        env.later(std::move(pr), o, p.form);
        s.f = f.ThenInline([t = Tok{1}](const R& r) {
          t.use();
          return R{r};
        });
      } else {
        s.f = f.ThenInline([t = Tok{1}](const R& r) {
          t.use();
          return R{r};
        });
        env.later(std::move(pr), o, p.form);
      }
      break;
    }
  }
}

void source(Lazy& s, Env& env) {
  const Plan& p = env.plan;
  auto& e = *env.e[std::size_t(p.src_exec)];
  const Out o = p.src_out;
  Env* pe = &env;
  auto contract = [pe, t = Tok{1}](P&& pr) {
    if (!pe->started.get()) pe->early.set(1);
    pe->src_runs.add(1);
    t.use();
    if (pe->plan.form % 2) {
      pe->later(std::move(pr), pe->plan.src_out, pe->plan.form);
    } else if (pe->plan.src_out.k == 'X') {
      throw Boom{pe->plan.src_out.id};
    } else {
      fulfil<P, Val, Err>(std::move(pr), pe->plan.src_out, pe->plan.form);
    }
  };
  switch (p.src) {
    case lReady:
      if (o.k == 'V') {
        s.t = yaclib::MakeTask<Val, Err>(Val{o.id});
      } else if (o.k == 'E') {
        s.t = yaclib::MakeTask<Val, Err>(Err{o.id});
      } else {
        s.t = yaclib::MakeTask<Val, Err>(boom(o.id));
      }
      break;
    case lSchedule:
      s.t = yaclib::Schedule<Err>(e, [pe, t = Tok{1}] { return src_func(pe, t); });
      break;
    case lScheduleInline:
      s.t = yaclib::Schedule<Err>([pe, t = Tok{1}] { return src_func(pe, t); });
      break;
    case lLazyContract:
      s.t = yaclib::LazyContract<Val, Err>(std::move(contract));
      break;
    case lLazyContractOn:
      s.t = yaclib::LazyContract<Val, Err>(e, std::move(contract));
      break;
    case lCoro:
      s.t = src_task_coro(env, Tok{1});
      break;
  }
}

// ---- inner asynchronous operations -----------------------------------------------------------------------
T inner_task_coro(Env& env, const Step* st, Out o, int how) {
  Tok t{77};
  if (how == 1) co_await On(*env.e[std::size_t(st->inner_exec)]);
  t.use();
  if (o.k == 'X') throw Boom{o.id};
  auto r = make_result<Val, Err>(o);
  co_return std::move(r);
}
F inner_coro(Env& env, const Step* st, Out o, bool on) {
  Tok t{78};
  if (on) co_await On(*env.e[std::size_t(st->inner_exec)]);
  t.use();
  if (o.k == 'X') throw Boom{o.id};
  auto r = make_result<Val, Err>(o);
  co_return std::move(r);
}
T make_inner_task(Env& env, const Step& st, Out o) {
  auto& e = *env.e[std::size_t(st.inner_exec)];
  Env* pe = &env;
  auto f = [o, t = Tok{70}]() -> R {
    t.use();
    return make_result<Val, Err>(o);
  };
  auto c = [o, pe, form = u32(st.id), t = Tok{71}](P&& p) {
    t.use();
    if (form % 2) {
      pe->later(std::move(p), o, form);
    } else {
      fulfil<P, Val, Err>(std::move(p), o, form);
    }
  };
  switch (st.inner) {
    case 0:
      return yaclib::MakeTask<Val, Err>(make_result<Val, Err>(o));
    case 1:
      return yaclib::Schedule<Err>(e, std::move(f));
    case 2:
      return yaclib::LazyContract<Val, Err>(std::move(c));
    case 3:
      return yaclib::LazyContract<Val, Err>(e, std::move(c));
    case 4:
      return inner_task_coro(env, &st, o, 0);
    case 5:
      return yaclib::MakeTask<Val, Err>(make_result<Val, Err>(o)).ThenInline([t = Tok{72}](R&& r) {
        t.use();
        return std::move(r);
      });
    case 6:
      return yaclib::Schedule<Err>(e, std::move(f)).Then([t = Tok{73}](R&& r) {
        t.use();
        return std::move(r);
      });
    case 7:
      return inner_task_coro(env, &st, o, 1);
    default:
      return yaclib::Schedule<Err>(std::move(f));
  }
}

}  // namespace kit
