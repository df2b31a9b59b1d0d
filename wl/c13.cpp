#include "c13.hpp"

namespace c13 {

const char* op_name(u32 op) {
  static const char* const n[] = {"co_await Future", "co_await FutureOn", "co_await SharedFuture", "co_await Task", "Await(f)", "Await(fo)", "Await(sf)", "Await(task)", "Await(f, g)", "Await(sf, f, sf)", "Await(range)", "Await(shared range)",
                                  "AwaitOn(e, f)", "AwaitOn(e, sf)", "AwaitOn(e, f, g)", "AwaitOn(e, sf, f, sf)", "AwaitOn(e, range)", "AwaitOn(e, shared range)",
                                  "AwaitSticky(f)", "AwaitSticky(sf)", "AwaitSticky(f, sf)", "AwaitSticky(sf, f, sf)", "AwaitSticky(range)", "AwaitSticky(shared range)", "On(e)", "kYield", "Yield()", "CurrentExecutor()"};
  return n[op];
}

Deferred::Deferred() : _lifo{sim::gen(3) == 2} {
  _t = std::thread{[this] { loop(); }};
}
void Deferred::loop() {
  std::unique_lock l{_m};
  for (;;) {
    while (!_q.empty()) {
      std::unique_ptr<Base> j;
      if (_lifo) {
        j = std::move(_q.back());
        _q.pop_back();
      } else {
        j = std::move(_q.front());
        _q.pop_front();
      }
      l.unlock();
      j->run();
      j.reset();
      l.lock();
    }
    if (_closing) return;
    _cv.wait(l);
  }
}
void Deferred::close() {
  if (!_t.joinable()) return;
  {
    std::lock_guard l{_m};
    _closing = true;
    _cv.notify_all();
  }
  _t.join();
}

// ---- producers ---------------------------------------------------------------------------------------------
static F coro_f(World& w, Src& s, Tok t) {
  if (s.form % 2) co_await On(*w.w);
  t.use();
  s.happen();
  if (s.o.k == 'X' && s.form % 3) throw Boom{s.o.id};
  auto r = make_result<Val, Err>(s.o);
  co_return std::move(r);
}
static SF coro_s(World& w, Src& s, Tok t) {
  if (s.form % 2) co_await On(*w.w);
  t.use();
  s.happen();
  if (s.o.k == 'X' && s.form % 3) throw Boom{s.o.id};
  auto r = make_result<Val, Err>(s.o);
  co_return std::move(r);
}
static T coro_t(World& w, Src& s, int depth, Tok t) {
  if (depth > 0) {
    Tok local{3};
    auto inner = coro_t(w, s, depth - 1, Tok{4});
    if (depth % 2) {
      try {
        Val v = co_await std::move(inner);
        local.use();
        co_return std::move(v);
      } catch (yaclib::ResultError<Err>& x) {
        co_return Err{x.Get()};
      }
    }
    co_await Await(inner);
    local.use();
    t.use();
    auto r = std::move(inner).Touch();
    co_return std::move(r);
  }
  if (s.form % 2) co_await On(*w.w);
  t.use();
  s.happen();
  if (s.o.k == 'X' && s.form % 3) throw Boom{s.o.id};
  auto r = make_result<Val, Err>(s.o);
  co_return std::move(r);
}
template <typename P_>
static void produce(World& w, Src& s, P_ p, bool on_pool) {
  auto job = [&s, p = std::move(p), t = Tok{5}]() mutable {
    t.use();
    s.happen();
    fulfil<P_, Val, Err>(std::move(p), s.o, s.form);
  };
  if (on_pool) {
    Submit(*w.w, std::move(job));
  } else {
    w.d.post(std::move(job));
  }
}
static R run_body(Src& s) {
  s.happen();
  if (s.o.k == 'X' && s.form % 2) throw Boom{s.o.id};
  return make_result<Val, Err>(s.o);
}
F make_future(World& w, Src& s) {
  const u32 k = s.o.k == 'D' ? 1 + s.kind % 2 : s.kind % 7;
  switch (k) {
    case 0:
      s.happen();
      return yaclib::MakeFuture<Val, Err>(make_result<Val, Err>(s.o));
    case 1:
    case 2: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      produce(w, s, std::move(p), k == 2);
      return std::move(f);
    }
    case 3:
      return yaclib::Run<Err>(*w.w, [&s, t = Tok{6}] { return run_body(s); }).On(nullptr);
    case 4:
      return coro_f(w, s, Tok{7});
    case 5: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      produce(w, s, std::move(p), s.form & 1);
      return std::move(f).ThenInline([t = Tok{8}](R&& r) {
        t.use();
        return std::move(r);
      });
    }
    default:
      return coro_t(w, s, s.depth, Tok{9}).ToFuture();
  }
}
FO make_future_on(World& w, Src& s) {
  const u32 k = s.o.k == 'D' ? 1 + s.kind % 2 : s.kind % 5;
  switch (k) {
    case 0:
      return yaclib::Run<Err>(*w.w, [&s, t = Tok{6}] { return run_body(s); });
    case 1:
    case 2: {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(*w.w);
      produce(w, s, std::move(p), k == 2);
      return std::move(f);
    }
    case 3: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      produce(w, s, std::move(p), s.form & 1);
      return std::move(f).Then(*w.w, [t = Tok{8}](R&& r) {
        t.use();
        return std::move(r);
      });
    }
    default:
      return yaclib::Run<Err>(*w.w, [&s, &w, t = Tok{6}] { return coro_f(w, s, Tok{7}); });
  }
}
SF make_shared(World& w, Src& s) {
  const u32 k = s.o.k == 'D' ? 1 + s.kind % 2 : s.kind % 4;
  switch (k) {
    case 0: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      s.happen();
      fulfil<SP, Val, Err>(std::move(p), s.o, s.form);
      return std::move(f);
    }
    case 1:
    case 2: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      produce(w, s, std::move(p), k == 2);
      return std::move(f);
    }
    default:
      return coro_s(w, s, Tok{7});
  }
}
T make_task(World& w, Src& s) {
  const u32 k = s.o.k == 'D' ? 2 + s.kind % 2 : s.kind % 7;
  auto contract = [&w, &s, t = Tok{10}](P&& p) {
    t.use();
    produce(w, s, std::move(p), s.form & 1);
  };
  switch (k) {
    case 0:
      s.happen();
      return yaclib::MakeTask<Val, Err>(make_result<Val, Err>(s.o));
    case 1:
      return yaclib::Schedule<Err>(*w.w, [&s, t = Tok{6}] { return run_body(s); });
    case 2:
      return yaclib::LazyContract<Val, Err>(std::move(contract));
    case 3:
      return yaclib::LazyContract<Val, Err>(*w.w, std::move(contract));
    case 4:
      return coro_t(w, s, s.depth, Tok{9});
    case 5:
      return yaclib::Schedule<Err>([&s, t = Tok{6}] { return run_body(s); }).Then(*w.w, [t = Tok{8}](R&& r) {
        t.use();
        return std::move(r);
      });
    default:
      return coro_t(w, s, s.depth, Tok{9}).ThenInline([t = Tok{8}](R&& r) {
        t.use();
        return std::move(r);
      });
  }
}

// ---- plan and oracle -----------------------------------------------------------------------------------------
void plan(World& w, bool refuse) {
  const int execs = 1 + int(sim::gen(2));
  for (int i = 0; i < execs; ++i) w.e.push_back(w.ex.random(kLiveKinds, refuse ? int(sim::gen(5)) : -1));
  w.w = w.ex.random(kLiveKinds);
  Script& s = w.s;
  s.n = 1 + int(sim::gen(5));
  int cur = -1;
  const u32 only = sim::gen(3) ? ~0u : sim::gen(oOps);  // swarm: one kind dominates
  for (int i = 0; i < s.n; ++i) {
    Step& st = s.st[i];
    st.op = sim::gen(oOps);
    if (only != ~0u && sim::gen(3)) st.op = only;
    st.exec = int(sim::gen(u32(execs)));
    st.caught = sim::gen(8) != 0;
    st.form = sim::gen(5);
    if (cur < 0 && (st.op == oYield || st.op == oYieldFn || (refuse && is_sticky(st.op)))) st.op = oOn;
    switch (st.op) {
      case oAwaitTwo:
      case oOnTwo:
      case oStTwo:
        st.n = 2;
        break;
      case oAwaitMixed:
      case oOnMixed:
      case oStMixed:
        st.n = 3;
        break;
      case oAwaitRange:
      case oAwaitSharedRange:
      case oOnRange:
      case oOnSharedRange:
      case oStRange:
      case oStSharedRange:
        st.n = sim::genp(1, 12) ? 4 + int(sim::gen(9)) : int(sim::gen(4));
        break;
      case oOn:
      case oYield:
      case oYieldFn:
      case oCurrent:
        st.n = 0;
        break;
      default:
        st.n = 1;
        break;
    }
    for (int k = 0; k < st.n; ++k) {
      w.srcs.emplace_back();
      Src& x = w.srcs.back();
      x.o = random_out(true);
      x.o.id += 10 * int(w.srcs.size());
      x.kind = sim::gen(420);
      x.form = sim::gen(6);
      x.depth = int(sim::gen(4));
      st.s[k] = &x;
    }
    if (st.op == oOn || is_await_on(st.op)) cur = st.exec;
    if (st.op <= oAwaitSharedRange) cur = -1;
  }
  s.ret = sim::gen(qRets);
  const int id = 900 + int(sim::gen(5));
  switch (s.ret) {
    case qThrow:
    case qPtr:
      s.out = except(id);
      break;
    case qError:
      s.out = error(id);
      break;
    case qResult:
      s.out = sim::gen(2) ? value(id) : error(id);
      break;
    default:
      s.out = value(id);
      break;
  }
}
Out escaped(Out o) { return o.k == 'X' ? o : Out{'X', 5000 + o.id}; }
Out out_coro(const R& r) {
  if (r.State() != yaclib::ResultState::Exception) return out(r);
  try {
    std::rethrow_exception(r.Exception());
  } catch (Boom& b) {
    return except(b.id);
  } catch (yaclib::ResultError<Err>& x) {
    return except(5000 + x.Get().code);
  } catch (...) {
    return except(-2);
  }
}
void judge(World& w, Out got, bool observed) {
  const Script& s = w.s;
  const int reached = w.reached.get();
  int lo[3] = {}, hi[3] = {};
  int refused = 0;
  for (auto& e : w.e) refused += e->refused();
  int cur = -1;
  bool unsure = false;
  const int failed = w.failed_at.get();
  for (int i = 0; i < s.n; ++i) {
    const Step& st = s.st[i];
    const int want = i < reached || i == failed ? 1 : 0;
    SIM_CHECK(w.resumed[i].get() == want, "exactly-once", "await %d (%s) resumed %d times", i, op_name(st.op), w.resumed[i].get());
    if (i > reached) continue;  // the last one looked at is the one that stopped it
    if (st.op == oOn || is_await_on(st.op)) {
      ++lo[st.exec], ++hi[st.exec];
      cur = st.exec;
    } else if (st.op == oYield || st.op == oYieldFn) {
      if (cur >= 0) ++lo[cur], ++hi[cur];
    } else if (is_sticky(st.op)) {
      if (cur >= 0) {
        ++hi[cur];
        if (i == reached && failed < 0) ++lo[cur];  // refused there
      } else {
        unsure = true;
      }
    } else if (st.op <= oAwaitSharedRange) {
      cur = -1;
    }
  }
  if (failed >= 0) {
    SIM_CHECK(refused == 0, "refused", "a refused coroutine continued");
    if (observed) SIM_CHECK(got == escaped(s.st[failed].s[0]->seen()), "final", "a failure of %s was not caught but the coroutine ended with %c%d", op_name(s.st[failed].op), got.k, got.id);
  } else if (reached == s.n) {
    SIM_CHECK(w.done.get() == 1 && refused == 0, "refused", "a refused coroutine continued");
    if (observed) SIM_CHECK(got == s.out, "final", "the coroutine returned %c%d but its result is %c%d", s.out.k, s.out.id, got.k, got.id);
  } else {
    SIM_CHECK(refused == 1, "lost", "the coroutine ended at await %d (%s) but %d executors refused it", reached, op_name(s.st[reached].op), refused);
    if (observed) SIM_CHECK(got == stopped(), "final", "a coroutine refused at %s ended with %c%d", op_name(s.st[reached].op), got.k, got.id);
  }
  for (std::size_t i = 0; i < w.e.size(); ++i) {
    const int n = w.e[i]->submitted();
    if (!unsure) SIM_CHECK(n >= lo[i] && n <= hi[i], "submissions", "executor %s got %d submissions, expected %d to %d", w.ex.name(w.e[i]->tag()), n, lo[i], hi[i]);
    SIM_CHECK(w.e[i]->called() + w.e[i]->dropped() == n, "xor", "a submitted coroutine is neither resumed nor dropped");
  }
}

namespace {

void run_one(bool refuse) {
  {
    World w;
    plan(w, refuse);
    Out got;
    bool observed = true;
    const u32 type = sim::gen(3), how = sim::gen(5);
    Slots fin{1};
    auto finish = [&](auto f) {
      switch (how) {
        case 0:
        case 1:
          got = out_coro(std::move(f).Get());
          break;
        case 2:
          Wait(f);
          got = out_coro(std::as_const(f).Touch());
          break;
        case 3:
          got = out_coro(std::move(f).ThenInline([t = Tok{11}](R&& r) {
                             t.use();
                             return std::move(r);
                           }).Get());
          break;
        default: {  // nobody is interested
          sim::count(sim::kDrop);
          observed = false;
          std::move(f).Detach();
          // the coroutine ends: the last thing it did is seen on the host side
          for (int i = 0; w.frames.get() != 0; ++i) {
            SIM_CHECK(i < 200, "lost", "a detached coroutine never ended");
            std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 12 ? i : 12)));
          }
          break;
        }
      }
    };
    if (type == 0) {
      auto f = body<F>(w, Tok{12}, Frame{w});
      finish(std::move(f));
    } else if (type == 1) {
      auto t = body<T>(w, Tok{12}, Frame{w});
      for (auto& e : w.e) SIM_CHECK(e->submitted() == 0 && w.reached.get() == 0, "early", "a coroutine Task ran before it was started");
      finish(std::move(t).ToFuture());
    } else {
      auto f = body<SF>(w, Tok{12}, Frame{w});
      switch (how) {
        case 0:
          got = out_coro(std::move(f).Get());
          break;
        case 1:
          got = out_coro(f.Get());
          break;
        case 2: {
          auto g = f;
          Wait(f, g);
          got = out_coro(std::as_const(g).Touch());
          SIM_CHECK(out_coro(f.Get()) == got, "final", "two copies of a shared coroutine differ");
          break;
        }
        case 3:
          got = out_coro(f.ThenInline([t = Tok{11}](const R& r) {
                            t.use();
                            return R{r};
                          }).Get());
          break;
        default: {
          observed = false;
          sim::count(sim::kDrop);
          { auto g = std::move(f); }
          for (int i = 0; w.frames.get() != 0; ++i) {
            SIM_CHECK(i < 200, "lost", "a dropped coroutine never ended");
            std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 12 ? i : 12)));
          }
          break;
        }
      }
    }
    w.d.close();
    for (int i = 0; w.later.get() != w.laters.get(); ++i) {
      SIM_CHECK(i < 200, "lost", "a continuation of an awaited future never ran");
      std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 12 ? i : 12)));
    }
    w.ex.shutdown();
    judge(w, got, observed);
    w.e.clear();
    w.w = nullptr;
  }
  check_no_live("after the coroutine");
}
void plain() { run_one(false); }
void refusing() { run_one(true); }

// coroutines without a value, co_return of every form, nested awaits across types
yaclib::Future<> vf(World& w, Src& s, u32 how, Tok t) {
  Tok local{1};
  if (how & 1) co_await On(*w.w);
  t.use();
  s.happen();
  if (how & 2) throw Boom{3};
  if (how & 4) co_return yaclib::StopTag{};
  local.use();
  co_return {};
}
yaclib::Task<> vt(World& w, Src& s, u32 how, Tok t) {
  co_await vf(w, s, how, Tok{2});
  t.use();
  co_return {};
}
yaclib::SharedFuture<> vs(World& w, Src& s, u32 how, Tok t) {
  co_await vt(w, s, how, Tok{3});
  t.use();
  co_return yaclib::Unit{};
}
yaclib::Future<int> vi(World& w, Src& s, u32 how, Tok t, HostInt& caught) {
  auto f = vs(w, s, how, Tok{4});
  try {
    co_await f;
    SIM_CHECK(s.plain == 1, "lost-write", "a write of the awaited coroutine is not visible");
  } catch (Boom& b) {
    caught.set(b.id);
    if (how & 8) throw;
  } catch (yaclib::ResultError<yaclib::StopError>&) {
    caught.set(100);
    if (how & 8) co_return yaclib::StopTag{};
  }
  t.use();
  co_return 8;
}
void voids() {
  {
    World w;
    w.w = w.ex.random(kLiveKinds);
    w.srcs.emplace_back();
    const u32 how = sim::gen(16);
    HostInt caught;
    auto r = vi(w, w.srcs[0], how, Tok{5}, caught).Get();
    const int want = how & 2 ? 3 : how & 4 ? 100 : 0;
    SIM_CHECK(caught.get() == want, "value", "the awaiting coroutine caught %d instead of %d", caught.get(), want);
    const Out o = out(r);
    const Out x = want == 0 || !(how & 8) ? value(8) : want == 3 ? except(3) : stopped();
    SIM_CHECK(o == x, "final", "the coroutine ended with %c%d instead of %c%d", o.k, o.id, x.k, x.id);
    w.d.close();
    w.ex.shutdown();
    w.w = nullptr;
  }
  check_no_live("after the coroutines");
}

sim::Workload a{"c13/plain", "C13", plain, sim::kAll, 4};
sim::Workload b{"c13/refusing", "C13", refusing, sim::kAll, 3};
sim::Workload c{"c13/voids", "C13", voids, sim::kAll, 1};
}  // namespace
}  // namespace c13
