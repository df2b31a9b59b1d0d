// C06: SharedFuture: every observer sees the one value once, never before it exists.
#include "consume.hpp"

#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>

#include <memory>
#include <optional>

namespace {
using namespace kit;

using SF = yaclib::SharedFuture<Val, Err>;
using R = yaclib::Result<Val, Err>;

enum Obs {
  oThenInline,
  oThen,
  oSubscribeInline,
  oSubscribe,
  oShare,
  oShareOn,
  oConnect,
  oConnectShared,
  oWaitTouch,
  oGetRef,
  oGetCopy,
  oPoll,
  oAwait,
  oCoAwait,
  oAwaitOn,
  oAwaitSticky,
  oAwaitTwo,
  oAll,
  oAny,
  oThenAsync,
  oThenShared,
  oAllFirst,
  oAnyLast,
  oObs
};
const char* const kObs[oObs] = {"ThenInline", "Then(e)", "SubscribeInline", "Subscribe(e)", "Share", "Share(e)", "Connect", "Connect shared", "Wait+Touch", "Get const&", "Get&&", "poll Ready", "Await", "co_await", "AwaitOn", "AwaitSticky", "Await two", "WhenAll", "WhenAny", "ThenInline(async)", "ThenInline(returns shared)", "WhenAll first fail", "WhenAny last fail"};

yaclib::Future<int, Err> coro_obs(SF f, Watch w, int how, yaclib::IExecutor& e) {
  Tok t{5};
  try {
    switch (how) {
      case oAwait:
        co_await Await(f);
        SIM_CHECK(f.Ready(), "ready", "a coroutine was resumed from Await but the shared future is not Ready");
        w(out(std::as_const(f).Touch()));
        break;
      case oAwaitOn:
        co_await AwaitOn(e, f);
        w(out(std::as_const(f).Touch()));
        break;
      case oAwaitSticky:
        co_await AwaitSticky(f);
        w(out(std::as_const(f).Touch()));
        break;
      case oAwaitTwo: {
        SF g = f;
        co_await Await(f, g);
        w(out(std::as_const(g).Touch()));
        break;
      }
      default: {
        Val v = co_await f;
        w(value(v.id()));
        break;
      }
    }
  } catch (const Boom& b) {
    w(except(b.id));
  } catch (yaclib::ResultError<Err>& x) {
    w(error(x.Get().code));
  }
  t.use();
  co_return 7;
}

// one observation; blocks until it has been made (or hands the handle to `pending`)
struct Pending {
  std::vector<yaclib::Future<int, Err>> fs;
  std::vector<std::unique_ptr<Latch>> ls;
  std::vector<std::pair<yaclib::Future<Val, Err>, Watch>> vs;
  std::vector<std::pair<SF, Watch>> ss;
  void wait() {
    for (auto& f : fs) {
      auto r = std::move(f).Get();
      SIM_CHECK(r.State() == yaclib::ResultState::Value && std::as_const(r).Value() == 7, "chain", "the step after the observer did not receive its value");
    }
    for (auto& l : ls) l->wait();
    for (auto& [f, w] : vs) w(out(std::move(f).Get()));
    for (auto& [f, w] : ss) w(out(std::as_const(f).Get()));
    fs.clear();
    ls.clear();
    vs.clear();
    ss.clear();
  }
};

void observe(SF& f, int how, Watch w, yaclib::IExecutor& e, Pending& p) {
  auto cb = [w, t = Tok{1}](const R& r) {
    t.use();
    w(out(r));
    return 7;
  };
  switch (how) {
    case oThenInline:
      p.fs.push_back(f.ThenInline(std::move(cb)));
      break;
    case oThen:
      p.fs.push_back(f.Then(e, std::move(cb)).On(nullptr));
      break;
    case oThenAsync:
      p.fs.push_back(f.ThenInline([w, t = Tok{1}, f2 = SF{f}](R r) {
        t.use();
        w(out(r));
        return f2.ThenInline([w0 = out(r)](R q) {
          SIM_CHECK(out(q) == w0, "intact", "two reads of one shared future differ");
          return 7;
        });
      }));
      break;
    case oThenShared: {  // a step returns another handle of the same state: the next step receives a copy
      auto next = [w, t = Tok{2}](R&& r) {
        t.use();
        w(out(r));
        return 7;
      };
      auto step = [f2 = SF{f}, t = Tok{1}](R) {
        t.use();
        return f2;
      };
      if (sim::gen(2)) {
        p.fs.push_back(f.ThenInline(std::move(step)).ThenInline(std::move(next)));
      } else {
        p.fs.push_back(f.Then(e, std::move(step)).Then(std::move(next)).On(nullptr));
      }
      break;
    }
    case oAllFirst: {
      std::vector<SF> v{f, f};
      p.fs.push_back(yaclib::WhenAll(v.begin(), v.size()).ThenInline([w](yaclib::Result<std::vector<Val>, Err>&& r) {
        if (r) {
          SIM_CHECK(std::as_const(r).Value().size() == 2 && std::as_const(r).Value()[0] == std::as_const(r).Value()[1], "intact", "two copies of one shared future delivered different values to WhenAll");
          w(value(std::as_const(r).Value()[0].id()));
        } else {
          w(r.State() == yaclib::ResultState::Error ? error(std::as_const(r).Error().code) : except(boom_id(std::as_const(r).Exception())));
        }
        return 7;
      }));
      break;
    }
    case oAnyLast: {
      std::vector<SF> v{f, f};
      p.fs.push_back(yaclib::WhenAny<yaclib::FailPolicy::LastFail>(v.begin(), v.size()).ThenInline([w](R&& r) {
        w(out(r));
        return 7;
      }));
      break;
    }
    case oSubscribeInline:
    case oSubscribe: {
      p.ls.push_back(std::make_unique<Latch>(1));
      auto cb2 = [w, l = p.ls.back().get(), t = Tok{2}](const R& r) {
        t.use();
        w(out(r));
        l->done();
      };
      if (how == oSubscribe) {
        f.Subscribe(e, std::move(cb2));
      } else {
        f.SubscribeInline(std::move(cb2));
      }
      break;
    }
    case oShare:
      p.vs.emplace_back(yaclib::Share(f), w);
      break;
    case oShareOn:
      p.fs.push_back(yaclib::Share(f, e).Then([w, t = Tok{3}](R&& r) {
        t.use();
        w(out(r));
        return 7;
      }).On(nullptr));
      break;
    case oConnect: {
      auto [f2, p2] = yaclib::MakeContract<Val, Err>();
      Connect(f, std::move(p2));
      p.vs.emplace_back(std::move(f2), w);
      break;
    }
    case oConnectShared: {
      auto [f2, p2] = yaclib::MakeSharedContract<Val, Err>();
      Connect(f, std::move(p2));
      p.ss.emplace_back(std::move(f2), w);
      break;
    }
    case oWaitTouch:
      Wait(f);
      SIM_CHECK(f.Ready(), "ready", "Wait returned but the shared future is not Ready");
      if (sim::gen(2)) {
        w(out(std::as_const(f).Touch()));
      } else {
        SF g = f;
        w(out(std::move(g).Touch()));
      }
      break;
    case oGetRef:
      w(out(std::as_const(f).Get()));
      break;
    case oGetCopy: {
      SF g = f;
      w(out(std::move(g).Get()));
      break;
    }
    case oPoll:
      for (int i = 0; i < 30 && !f.Ready(); ++i) sim::yield();
      if (f.Ready()) {
        sim::probe("ready_by_polling");
        w(out(std::as_const(f).Touch()));
      } else {
        w(out(std::as_const(f).Get()));
      }
      break;
    case oAwait:
    case oCoAwait:
    case oAwaitOn:
    case oAwaitSticky:
    case oAwaitTwo:
      p.fs.push_back(coro_obs(f, w, how, e));
      break;
    case oAll: {
      std::vector<SF> v{f, f};
      p.fs.push_back(yaclib::WhenAll<yaclib::FailPolicy::None>(v.begin(), v.size()).ThenInline([w](std::vector<R> rs) {
        SIM_CHECK(rs.size() == 2 && out(rs[0]) == out(rs[1]), "intact", "two copies of one shared future delivered different results to WhenAll");
        w(out(rs[0]));
        return 7;
      }));
      break;
    }
    case oAny: {
      std::vector<SF> v{f, f};
      p.fs.push_back(yaclib::WhenAny<yaclib::FailPolicy::None>(v.begin(), v.size()).ThenInline([w](R&& r) {
        w(out(r));
        return 7;
      }));
      break;
    }
  }
}

constexpr int kMaxSlots = 48;

struct World {
  Execs ex;
  ProxyPtr e;
  Slots slots{kMaxSlots};
  HostInt started{0};
  int written = 0;
  Out o = random_out(true);
  int used = 0;
  SF kept;  // another handle, looked at when everybody else is done
  Watch watch(bool plain = true) { return Watch{&slots, used++, &started, plain ? &written : nullptr}; }
  World() { e = ex.random(kLiveKinds); }
  void check(const int* how) {
    const Out want = expected<Val, Err>(o);
    if (kept.Valid()) {
      const Out got = out(std::as_const(kept).Get());
      SIM_CHECK(got == want, "intact", "after all observers: set %c%d but the state holds %c%d", want.k, want.id, got.k, got.id);
      kept = SF{};
    }
    for (int i = 0; i < used; ++i) {
      const char* nm = how ? kObs[how[i]] : "observer";
      SIM_CHECK(slots.count(i) == 1, "exactly-once", "%s (#%d) saw the result %d times", nm, i, slots.count(i));
      SIM_CHECK(slots.last(i) == want, "intact", "%s (#%d): set %c%d but observed %c%d", nm, i, want.k, want.id, slots.last(i).k, slots.last(i).id);
    }
  }
};

void many() {
  World w;
  int how[kMaxSlots] = {};
  const int threads = 1 + int(sim::gen(3));
  const u32 form = sim::gen(6);
  const int src = int(sim::gen(8));
  struct Plan {
    int n;
    Obs h[12];
    Watch w[12];
    bool drop_early;
    int delay;
  };
  // everything is generated before threads start: the program does not depend on the schedule
  Plan plan[4];
  int total = 0;
  for (int i = 0; i < threads; ++i) {
    plan[i].n = int(amount(i == 0 ? 3 : 2, 10));
    for (int j = 0; j < plan[i].n; ++j) {
      plan[i].h[j] = Obs(sim::gen(oObs));
      how[w.used] = plan[i].h[j];
      plan[i].w[j] = w.watch(src != 2);
      ++total;
    }
    plan[i].drop_early = sim::gen(2);
    plan[i].delay = int(sim::gen(4));
  }
  const int producer_delay = int(sim::gen(5));
  Threads th, later;
  const bool keep = sim::gen(2);
  auto observers = [&](const SF& f) {
    if (keep) w.kept = f;
    for (int i = 0; i < threads; ++i) {
      th.go([&, i, f = SF{f}]() mutable {
        Pending p;
        for (int d = 0; d < plan[i].delay; ++d) sim::yield();
        for (int j = 0; j < plan[i].n; ++j) observe(f, plan[i].h[j], plan[i].w[j], *w.e, p);
        if (plan[i].drop_early) f = SF{};
        p.wait();
      });
    }
  };
  auto set = [&](auto pr) {
    for (int d = 0; d < producer_delay; ++d) sim::yield();
    w.written = 1;
    w.started.set(1);
    fulfil<decltype(pr), Val, Err>(std::move(pr), w.o, form);
  };
  switch (src) {
    case 0:
    case 1: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      observers(f);
      if (src == 1) f = SF{};
      set(std::move(p));
      break;
    }
    case 2: {
      if (w.o.k == 'D') w.o = value(3);
      const bool refuse = sim::gen(6) == 0;
      auto eb = w.ex.random(refuse ? bit(xStoppedInline) : kLiveKinds);
      if (refuse) {
        w.o = stopped();
        w.started.set(1);
      }
      auto fo = yaclib::RunShared<Err>(*eb, [&, refuse, t = Tok{50}]() -> R {
        t.use();
        SIM_CHECK(!refuse, "refused", "a function ran although its executor refused it");
        w.started.set(1);
        if (w.o.k == 'X' && form % 2) {
          sim::count(sim::kThrow);
          throw Boom{w.o.id};
        }
        return make_result<Val, Err>(w.o);
      });
      observers(std::move(fo).On(nullptr));
      break;
    }
    case 5:
    case 6: {  // a function that receives the promise
      const bool refuse = src == 5 && sim::gen(6) == 0;
      const u32 way = sim::gen(3);
      auto eb = w.ex.random(refuse ? bit(xStoppedInline) : kLiveKinds);
      auto fn = [&, refuse, way, t = Tok{51}](yaclib::SharedPromise<Val, Err>&& p) {
        t.use();
        SIM_CHECK(!refuse, "refused", "a function ran although its executor refused it");
        if (way == 0 && w.o.k == 'X') {
          w.written = 1;
          w.started.set(1);
          sim::count(sim::kThrow);
          throw Boom{w.o.id};
        }
        if (way == 1) {
          later.go([&set, q = std::move(p)]() mutable { set(std::move(q)); });
          if (form % 2) throw Boom{99};  // too late to matter
          return;
        }
        set(std::move(p));
      };
      if (refuse) {
        w.o = stopped();
        w.written = 1;
        w.started.set(1);
      }
      if (src == 5) {
        auto fo = yaclib::AsyncSharedContract<Val, Err>(*eb, std::move(fn));
        observers(std::move(fo).On(nullptr));
      } else {
        auto fo = yaclib::AsyncSharedContract<Val, Err>(std::move(fn));
        observers(std::move(fo).On(nullptr));
      }
      break;
    }
    case 7: {  // a coroutine
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      observers(relay_shared<Val, Err>(std::move(f)));
      set(std::move(p));
      break;
    }
    case 3: {  // a unique future split into a shared one
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      if (sim::gen(2)) {
        auto sf = yaclib::Split(std::move(f));
        observers(sf);
        if (sim::gen(2)) sf = SF{};
        set(std::move(p));
      } else {
        th.go([&, f = std::move(f)]() mutable {
          auto sf = yaclib::Split(std::move(f));
          Pending pp;
          for (int i = 0; i < threads; ++i) {
            for (int j = 0; j < plan[i].n; ++j) observe(sf, plan[i].h[j], plan[i].w[j], *w.e, pp);
          }
          sf = SF{};
          pp.wait();
        });
        set(std::move(p));
      }
      break;
    }
    case 4: {  // promise first: Share / Split / Connect from the promise
      auto p = yaclib::MakeSharedPromise<Val, Err>();
      Pending pp;
      const u32 mask = sim::gen(8);
      if (mask & 1) {
        how[w.used] = oShare;
        pp.vs.emplace_back(yaclib::Share(p), w.watch());
      }
      if (mask & 2) {
        auto [f2, p2] = yaclib::MakeSharedContract<Val, Err>();
        Connect(p, std::move(p2));
        how[w.used] = oConnectShared;
        pp.ss.emplace_back(std::move(f2), w.watch());
      }
      if (mask & 4) {
        how[w.used] = oShareOn;
        pp.fs.push_back(yaclib::Share(p, *w.e).Then([w = w.watch()](R&& r) {
          w(out(r));
          return 7;
        }).On(nullptr));
      }
      observers(yaclib::Split(p));
      set(std::move(p));
      pp.wait();
      break;
    }
  }
  th.join();
  w.ex.shutdown();
  later.join();
  w.check(how);
}

// all SharedFutures may be gone when the value arrives: only callbacks remain; the last one may move
void orphans() {
  World w;
  int how[kMaxSlots] = {};
  const int n = int(amount(4, 30));
  const u32 form = sim::gen(6);
  const int delay = int(sim::gen(4));
  const int drop_delay = int(sim::gen(4));
  const bool keep = sim::gen(4) == 0;
  auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
  if (keep) w.kept = f;
  Threads th;
  Pending pp;
  auto produce = [&](auto p) {
    for (int d = 0; d < delay; ++d) sim::yield();
    w.written = 1;
    w.started.set(1);
    fulfil<decltype(p), Val, Err>(std::move(p), w.o, form);
  };
  th.go([&, p = std::move(p)]() mutable { produce(std::move(p)); });
  static const Obs kinds[] = {oThenInline, oThen, oSubscribeInline, oSubscribe, oShare, oShareOn, oConnect, oConnectShared, oCoAwait, oAwait, oThenAsync, oThenShared, oAllFirst, oAnyLast};
  for (int i = 0; i < n; ++i) {
    const Obs h = kinds[sim::gen(sizeof kinds / sizeof *kinds)];
    how[w.used] = h;
    observe(f, h, w.watch(), *w.e, pp);
    if (sim::gen(3) == 0) sim::yield();
  }
  const u32 last = sim::gen(4);
  for (int d = 0; d < drop_delay; ++d) sim::yield();
  if (last == 0) {
    how[w.used] = oGetCopy;
    auto wt = w.watch();
    wt(out(std::move(f).Get()));
  } else if (last == 1) {
    how[w.used] = oWaitTouch;
    auto wt = w.watch();
    Wait(f);
    wt(out(std::move(f).Touch()));
  } else if (last == 2) {
    SF g = f;
    f = SF{};
    how[w.used] = oGetRef;
    auto wt = w.watch();
    wt(out(std::as_const(g).Get()));
    std::move(g).Detach();
  }
  f = SF{};
  pp.wait();
  th.join();
  w.ex.shutdown();
  w.check(how);
}

// readers on several threads against a consuming Get&&/Touch&& on another copy
void readers_vs_mover() {
  World w;
  int how[kMaxSlots] = {};
  const u32 form = sim::gen(6);
  auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
  const int n = 1 + int(sim::gen(2));
  Watch ws[4];
  int hs[4];
  for (int i = 0; i <= n; ++i) {
    hs[i] = int(sim::gen(4));
    how[w.used] = hs[i] < 2 ? oGetRef : oGetCopy;
    ws[i] = w.watch();
  }
  Threads th;
  for (int i = 0; i < n; ++i) {
    th.go([&, i, f = SF{f}]() mutable {
      switch (hs[i]) {
        case 0:
          ws[i](out(std::as_const(f).Get()));
          break;
        case 1:
          Wait(f);
          ws[i](out(std::as_const(f).Touch()));
          break;
        case 2:
          ws[i](out(std::move(f).Get()));
          break;
        default:
          Wait(f);
          ws[i](out(std::move(f).Touch()));
          break;
      }
    });
  }
  w.written = 1;
  w.started.set(1);
  fulfil<decltype(p), Val, Err>(std::move(p), w.o, form);
  sim::yield();
  if (sim::gen(3) == 0) w.kept = f;
  ws[n](out(std::move(f).Get()));
  f = SF{};
  th.join();
  w.ex.shutdown();
  w.check(how);
}

sim::Workload a{"c06/many", "C06", many, sim::kAllButLeak, 5};
sim::Workload b{"c06/orphans", "C06", orphans, sim::kAllButLeak, 3};
sim::Workload c{"c06/readers_vs_mover", "C06", readers_vs_mover, sim::kAllButLeak, 1};
}  // namespace
