// C16: WaitGroup / OneShotEvent release every waiter exactly when the count hits zero.
#include "consume.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>

#include <memory>
#include <optional>

namespace {
using namespace kit;
using F = yaclib::Future<Val, Err>;
using FO = yaclib::FutureOn<Val, Err>;
using P = yaclib::Promise<Val, Err>;
using WG = yaclib::WaitGroup<>;
using Event = yaclib::OneShotEvent;

constexpr int kU = 48;  // units
constexpr int kFs = 24; // futures of a wait group

// Everything that must happen before the event fires.
struct Units {
  HostInt begun[kU];
  int plain[kU] = {};
  int n = 0;
  int add() { return n++; }
  void begin(int i) {
    plain[i] = 1;
    begun[i].set(1);
  }
  // called by whoever was released
  void released(const char* how) {
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(begun[i].get(), "early", "%s was released although unit %d of %d is not done", how, i, n);
      SIM_CHECK(plain[i] == 1, "lost-write", "%s was released but does not see a write made before unit %d was done", how, i);
    }
  }
};

enum Wait {
  wWait,
  wWaitFor,
  wWaitUntil,
  wInline,
  wCoAwait,
  wSticky,
  wOn,
  wWaits
};
const char* const kWait[] = {"Wait", "WaitFor", "WaitUntil", "AwaitInline", "co_await", "AwaitSticky", "AwaitOn"};

template <typename E>
yaclib::Future<int, Err> coro_wait(E& ev, int how, Units& u, Slots& s, int slot, Proxy* home, Proxy* e) {
  Tok t{3};
  if (home) co_await On(*home);
  switch (how) {
    case wInline:
      co_await ev.AwaitInline();
      break;
    case wCoAwait:
      co_await ev;
      break;
    case wSticky:
      co_await ev.AwaitSticky();
      if (home) SIM_CHECK(top_tag() == home->tag(), "where", "AwaitSticky resumed outside of the coroutine's own executor");
      break;
    default:
      co_await ev.AwaitOn(*e);
      SIM_CHECK(top_tag() == e->tag(), "where", "AwaitOn resumed outside of the named executor");
      break;
  }
  s.see(slot, value(1));
  u.released(kWait[how]);
  t.use();
  co_return 7;
}

// Blocking forms. Returns true if it was released, false on a timeout.
template <typename E>
bool block(E& ev, int how, u64 ns) {
  switch (how) {
    case wWait:
      ev.Wait();
      return true;
    case wWaitFor: {
      const u64 t0 = sim::now();
      if (ev.WaitFor(std::chrono::nanoseconds(ns))) return true;
      sim::count(sim::kTimeout);
      SIM_CHECK(sim::now() >= t0 + ns, "early-timeout", "WaitFor returned false before its deadline");
      return false;
    }
    default: {
      const auto dl = std::chrono::steady_clock::now() + std::chrono::nanoseconds(ns);
      if (ev.WaitUntil(dl)) return true;
      sim::count(sim::kTimeout);
      SIM_CHECK(std::chrono::steady_clock::now() >= dl, "early-timeout", "WaitUntil returned false before its deadline");
      return false;
    }
  }
}

struct Waiters {
  struct One {
    int how, delay, tries;
    u64 ns;
    ProxyPtr home, e;
    bool refuse = false;
  };
  int n;
  One w[4];
  std::optional<Slots> slots;

  Waiters(Execs& ex, int count, bool may_refuse) : n{count} {
    // executors are shared by the waiters and by the rounds of one run
    static constexpr int kBase = 2;
    while (ex.count() < kBase + 1) ex.random(ex.count() == kBase ? bit(xInline) : kLiveKinds, ex.count() == kBase ? 0 : -1);
    slots.emplace(8);
    for (int i = 0; i < n; ++i) {
      w[i].how = int(sim::gen(wWaits));
      w[i].delay = int(sim::gen(6));
      w[i].ns = u64(sim::gen(4)) * 600;
      w[i].tries = 1 + int(sim::gen(3));
      if (w[i].how >= wInline) {
        if (sim::gen(3)) w[i].home = ProxyPtr{ex.proxy(int(sim::gen(kBase)))};
        w[i].refuse = may_refuse && sim::gen(6) == 5;
        w[i].e = ProxyPtr{ex.proxy(w[i].refuse ? kBase : int(sim::gen(kBase)))};
      }
    }
  }
  template <typename E>
  void run(int i, E& ev, Units& u) {
    One& o = w[i];
    for (int d = 0; d < o.delay; ++d) sim::yield();
    if (o.how < wInline) {
      bool ok = false;
      for (int k = 0; k < o.tries && !ok; ++k) {
        ok = block(ev, o.how, o.ns);
        sim::scribble_stack();
      }
      if (!ok) {
        sim::probe("gave_up_then_waited");
        ev.Wait();
      }
      slots->see(i, value(1));
      u.released(kWait[o.how]);
    } else {
      auto r = coro_wait(ev, o.how, u, *slots, i, o.home.Get(), o.e.Get()).Get();
      const bool stopped_expected = o.refuse && o.how == wOn;
      SIM_CHECK(out(r) == (stopped_expected ? stopped() : value(7)), "result", "%s: the coroutine ended with %c%d", kWait[o.how], out(r).k, out(r).id);
      if (stopped_expected) {
        SIM_CHECK(slots->count(i) == 0, "stopped", "a coroutine continued although its executor refused it");
        sim::count(sim::kReject);
        u.released("the refused waiter");
        slots->see(i, value(1));
      }
    }
  }
  void check() {
    for (int i = 0; i < n; ++i) SIM_CHECK(slots->count(i) == 1, "exactly-once", "%s was released %d times", kWait[w[i].how], slots->count(i));
  }
};

struct Fut {
  int unit = -1;
  int kind = 0;  // 0 plain unit by Done, 1 attach, 2 consume
  int form = 0;
  Out o;
  u32 set = 0;
  std::optional<P> p;
  F f;
  FO fo;
  bool on = false;
  bool ready = false;  // set before it is attached
};

void wait_group() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  auto wg = std::make_unique<WG>();
  const int rounds = 1 + int(sim::gen(2));
  for (int round = 0; round < rounds; ++round) {
    Units u;
    Waiters ws{ex, 1 + int(sim::gen(4)), true};
    const int producers = 1 + int(sim::gen(3));
    struct Prod {
      int n = 0;
      int unit[3];
      int kind[3];   // 0: Done(1) of own Add(1); 1: part of a bulk Add
      int delay;
    } pr[3];
    int guard = u.add();
    std::size_t initial = 1;
    for (int i = 0; i < producers; ++i) {
      pr[i].n = 1 + int(sim::gen(2));
      pr[i].delay = int(sim::gen(5));
      for (int j = 0; j < pr[i].n; ++j) {
        pr[i].unit[j] = u.add();
        pr[i].kind[j] = int(sim::gen(2));
      }
      ++initial;  // the producer's own unit 0
    }
    // futures
    const int nf = sim::genp(1, 16) ? kFs - int(sim::gen(16)) : int(sim::gen(4));
    Fut fs[kFs];
    const bool same_on = sim::gen(4) == 0;
    for (int i = 0; i < nf; ++i) {
      fs[i].unit = u.add();
      fs[i].kind = 1 + int(sim::gen(2));
      fs[i].o = random_out(true);
      fs[i].set = sim::gen(6);
      fs[i].on = same_on;
      fs[i].ready = sim::gen(4) == 0;
      if (same_on) {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(*e);
        fs[i].fo = std::move(f);
        fs[i].p.emplace(std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        fs[i].f = sim::gen(3) ? std::move(f) : relay<Val, Err>(std::move(f));
        fs[i].p.emplace(std::move(p));
      }
    }
    const int attach_form = int(sim::gen(5));
    const bool scattered = sim::genp(1, 3);
    const bool need_add = sim::gen(2);
    const int fdelay = int(sim::gen(5));
    const bool frev = sim::gen(2);
    int mode[kFs];
    for (auto& m : mode) m = int(sim::gen(mModes));
    auto complete = [&](int i) {
      u.begin(fs[i].unit);
      fulfil<P, Val, Err>(std::move(*fs[i].p), fs[i].o, fs[i].set);
      fs[i].p.reset();
    };
    wg->Reset(initial);
    {
      Threads th;
      for (int i = 0; i < ws.n - 1; ++i) th.go([&, i] { ws.run(i, *wg, u); });
      for (int i = 0; i < producers; ++i) {
        th.go([&, i] {
          for (int d = 0; d < pr[i].delay; ++d) sim::yield();
          const int extra = pr[i].n - 1;
          if (extra) wg->Add(std::size_t(extra));
          SIM_CHECK(wg->Count() > 0, "count", "Count() is 0 while an added operation is not done");
          if (extra && pr[i].kind[0]) {
            for (int j = 0; j < pr[i].n; ++j) u.begin(pr[i].unit[j]);
            wg->Done(std::size_t(pr[i].n));
          } else {
            for (int j = pr[i].n; j-- > 0;) {
              u.begin(pr[i].unit[j]);
              wg->Done();
            }
          }
        });
      }
      // main attaches while holding the guard unit
      for (int i = 0; i < nf; ++i) {
        if (fs[i].ready) complete(i);
      }
      auto attach = [&](auto member) {
        auto get = [&](int i) -> auto& { return fs[i].*member; };
        int at[kFs], na = 0, co[kFs], nc = 0;
        for (int i = 0; i < nf; ++i) (fs[i].kind == 1 ? at[na++] : co[nc++]) = i;
        if (!need_add && nf) wg->Add(std::size_t(nf));
        using T = std::remove_reference_t<decltype(get(0))>;
        if (na || attach_form >= 3) {
          if (attach_form < 2) {
            for (int i = 0; i < na; ++i) need_add ? wg->Attach(get(at[i])) : wg->template Attach<false>(get(at[i]));
          } else if (na == 2 && attach_form == 2) {
            need_add ? wg->Attach(get(at[0]), get(at[1])) : wg->template Attach<false>(get(at[0]), get(at[1]));
          } else {
            std::vector<T> v;
            for (int i = 0; i < na; ++i) v.push_back(std::move(get(at[i])));
            if (const Backwards<T> r{v}; scattered) {
              if (attach_form == 3) {
                need_add ? wg->Attach(r.begin(), r.end()) : wg->template Attach<false>(r.begin(), r.end());
              } else {
                need_add ? wg->Attach(r.begin(), r.size()) : wg->template Attach<false>(r.begin(), r.size());
              }
            } else if (attach_form == 3) {
              need_add ? wg->Attach(v.begin(), v.end()) : wg->template Attach<false>(v.begin(), v.end());
            } else {
              need_add ? wg->Attach(v.begin(), v.size()) : wg->template Attach<false>(v.begin(), v.size());
            }
            for (int i = 0; i < na; ++i) get(at[i]) = std::move(v[std::size_t(i)]);
          }
        }
        if (nc || attach_form >= 3) {
          if (attach_form < 2) {
            for (int i = 0; i < nc; ++i) need_add ? wg->Consume(std::move(get(co[i]))) : wg->template Consume<false>(std::move(get(co[i])));
          } else if (nc == 2 && attach_form == 2) {
            need_add ? wg->Consume(std::move(get(co[0])), std::move(get(co[1]))) : wg->template Consume<false>(std::move(get(co[0])), std::move(get(co[1])));
          } else {
            std::vector<T> v;
            for (int i = 0; i < nc; ++i) v.push_back(std::move(get(co[i])));
            if (const Backwards<T> r{v}; scattered) {
              if (attach_form == 3) {
                need_add ? wg->Consume(r.begin(), r.end()) : wg->template Consume<false>(r.begin(), r.end());
              } else {
                need_add ? wg->Consume(r.begin(), r.size()) : wg->template Consume<false>(r.begin(), r.size());
              }
            } else if (attach_form == 3) {
              need_add ? wg->Consume(v.begin(), v.end()) : wg->template Consume<false>(v.begin(), v.end());
            } else {
              need_add ? wg->Consume(v.begin(), v.size()) : wg->template Consume<false>(v.begin(), v.size());
            }
            for (auto& f : v) SIM_CHECK(!f.Valid(), "valid", "a consumed future is still Valid");
          }
        }
      };
      // another thread completes the rest concurrently with the attaching
      th.go([&] {
        for (int d = 0; d < fdelay; ++d) sim::yield();
        for (int k = 0; k < nf; ++k) {
          const int i = frev ? nf - 1 - k : k;
          if (!fs[i].ready) complete(i);
        }
      });
      if (same_on) {
        attach(&Fut::fo);
      } else {
        attach(&Fut::f);
      }
      auto poll = [&](auto member) {
        for (int i = 0; i < nf; ++i) {
          if (fs[i].kind != 1) continue;
          auto& f = fs[i].*member;
          SIM_CHECK(f.Valid(), "valid", "an attached future is not Valid");
          if (f.Ready()) {
            SIM_CHECK(u.begun[fs[i].unit].get(), "early-ready", "an attached future is Ready before it completes");
            SIM_CHECK(out(std::as_const(f).Touch()) == (expected<Val, Err>(fs[i].o)), "intact", "an attached future is Ready with another result");
          }
        }
      };
      if (same_on) {
        poll(&Fut::fo);
      } else {
        poll(&Fut::f);
      }
      u.begin(guard);
      wg->Done();
      ws.run(ws.n - 1, *wg, u);
      if (sim::gen(2) == 0) sim::probe("joined_before_consuming");
      th.join();
    }
    ws.check();
    SIM_CHECK(wg->Count() == 0, "count", "Count() is %zu after everything is done", wg->Count());
    // attached futures are ready, valid and still deliver once
    Slots slots{kFs};
    for (int i = 0; i < nf; ++i) {
      if (fs[i].kind != 1) continue;
      Watch w{&slots, i, &u.begun[fs[i].unit], &u.plain[fs[i].unit]};
      auto go = [&](auto f) {
        SIM_CHECK(f.Valid() && f.Ready(), "ready", "an attached future is not Ready after the wait");
        consume(std::move(f), mode[i], w, *e);
        if (mode[i] < mModesObserved) {
          SIM_CHECK(slots.count(i) == 1 && slots.last(i) == (expected<Val, Err>(fs[i].o)), "intact", "an attached future delivered %d times, last %c%d", slots.count(i), slots.last(i).k, slots.last(i).id);
        }
      };
      if (fs[i].on) {
        go(std::move(fs[i].fo));
      } else {
        go(std::move(fs[i].f));
      }
    }
  }
  wg = nullptr;
  e = nullptr;
  ex.shutdown();
  check_no_live("after the wait group");
}

// The waiter destroys the group the moment it is released.
void short_lived() {
  Execs ex;
  {
    Units u;
    Waiters ws{ex, 1, false};
    if (ws.w[0].how == wWaitFor || ws.w[0].how == wWaitUntil) ws.w[0].tries = 3;
    const int n = int(amount(4, 24));
    const int m = int(sim::gen(3));
    auto wg = std::make_unique<WG>(std::size_t(n));
    std::vector<std::pair<int, P>> ps;
    for (int i = 0; i < n; ++i) u.add();
    for (int i = 0; i < m; ++i) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      ps.emplace_back(u.add(), std::move(p));
      if (sim::gen(3) == 0) f = relay<Val, Err>(std::move(f));
      wg->Consume(std::move(f));
    }
    Threads th;
    WG* raw = wg.get();
    const int split = int(sim::gen(u32(n) + 1));
    th.go([&, raw] {
      for (int i = 0; i < split; ++i) {
        u.begin(i);
        raw->Done();
      }
    });
    th.go([&, raw] {
      for (int i = split; i < n; ++i) {
        u.begin(i);
        raw->Done();
      }
      for (auto& [i, p] : ps) {
        u.begin(i);
        std::move(p).Set(Val{i});
      }
    });
    if (ws.w[0].how < wInline) {
      ws.run(0, *wg, u);
      wg = nullptr;
    } else {
      auto co = [](std::unique_ptr<WG> g, Waiters::One& o, Units& uu) -> yaclib::Future<int, Err> {
        Tok t{4};
        if (o.home) co_await On(*o.home);
        if (o.how == wOn) {
          co_await g->AwaitOn(*o.e);
        } else if (o.how == wSticky) {
          co_await g->AwaitSticky();
        } else {
          co_await *g;
        }
        g = nullptr;
        uu.released(kWait[o.how]);
        co_return 7;
      };
      auto r = co(std::move(wg), ws.w[0], u).Get();
      SIM_CHECK(out(r) == value(7), "result", "the coroutine ended with %c%d", out(r).k, out(r).id);
    }
    th.join();
  }
  ex.shutdown();
  check_no_live("after the wait group");
}

// Nothing but the futures is counted: one call adds them all and, if they are ready already, brings the count to zero.
template <typename Fut>
void futures_only() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  auto wg = std::make_unique<WG>();
  const int rounds = 1 + int(sim::gen(2));
  for (int round = 0; round < rounds; ++round) {
    if (round) wg->Reset();
    Units u;
    Waiters ws{ex, 1 + int(sim::gen(3)), true};
    const int n = 1 + int(sim::gen(sim::genp(1, 12) ? 16 : 4));
    const bool consumed = sim::gen(2);
    const bool need_add = sim::gen(3);
    const u32 form = sim::gen(4);
    const u32 all_ready = sim::gen(3);  // 0: mixed, 1: all ready, 2: none is
    std::vector<Fut> v;
    std::vector<P> ps;
    std::vector<Out> os;
    std::vector<int> mode;
    for (int i = 0; i < n; ++i) {
      u.add();
      os.push_back(random_out(true));
      mode.push_back(int(sim::gen(mModesObserved)));
      if constexpr (FutureTypes<Fut>::on) {
        auto [f, p] = yaclib::MakeContractOn<Val, Err>(*e);
        v.push_back(std::move(f));
        ps.push_back(std::move(p));
      } else {
        auto [f, p] = yaclib::MakeContract<Val, Err>();
        v.push_back(sim::gen(3) ? std::move(f) : relay<Val, Err>(std::move(f)));
        ps.push_back(std::move(p));
      }
    }
    auto complete = [&](int i) {
      u.begin(i);
      const u32 set = u32(i) % 6;
      P p = std::move(ps[std::size_t(i)]);
      fulfil<P, Val, Err>(std::move(p), os[std::size_t(i)], set);
    };
    std::vector<int> late;
    for (int i = 0; i < n; ++i) {
      if (all_ready == 1 || (all_ready == 0 && sim::gen(2))) {
        complete(i);
      } else {
        late.push_back(i);
      }
    }
    if (late.empty()) sim::probe("all_ready_before_attach");
    const int delay = int(sim::gen(5));
    {
      Threads th;
      th.go([&] {
        for (int d = 0; d < delay; ++d) sim::yield();
        for (int i : late) complete(i);
      });
      if (!need_add) wg->Add(std::size_t(n));
      if (form == 0 && n <= 3) {
        if (n == 1) {
          if (consumed) {
            need_add ? wg->Consume(std::move(v[0])) : wg->template Consume<false>(std::move(v[0]));
          } else {
            need_add ? wg->Attach(v[0]) : wg->template Attach<false>(v[0]);
          }
        } else if (n == 2) {
          if (consumed) {
            need_add ? wg->Consume(std::move(v[0]), std::move(v[1])) : wg->template Consume<false>(std::move(v[0]), std::move(v[1]));
          } else {
            need_add ? wg->Attach(v[0], v[1]) : wg->template Attach<false>(v[0], v[1]);
          }
        } else {
          if (consumed) {
            need_add ? wg->Consume(std::move(v[0]), std::move(v[1]), std::move(v[2])) : wg->template Consume<false>(std::move(v[0]), std::move(v[1]), std::move(v[2]));
          } else {
            need_add ? wg->Attach(v[0], v[1], v[2]) : wg->template Attach<false>(v[0], v[1], v[2]);
          }
        }
      } else if (form < 2) {
        const auto b = v.begin();
        if (consumed) {
          need_add ? wg->Consume(b, v.end()) : wg->template Consume<false>(b, v.end());
        } else {
          need_add ? wg->Attach(b, v.end()) : wg->template Attach<false>(b, v.end());
        }
      } else if (form == 2) {
        const Backwards<Fut> r{v};
        if (consumed) {
          need_add ? wg->Consume(r.begin(), r.size()) : wg->template Consume<false>(r.begin(), r.size());
        } else {
          need_add ? wg->Attach(r.begin(), r.size()) : wg->template Attach<false>(r.begin(), r.size());
        }
      } else {
        if (consumed) {
          need_add ? wg->Consume(v.begin(), v.size()) : wg->template Consume<false>(v.begin(), v.size());
        } else {
          need_add ? wg->Attach(v.begin(), v.size()) : wg->template Attach<false>(v.begin(), v.size());
        }
      }
      for (int i = 0; i < ws.n - 1; ++i) th.go([&, i] { ws.run(i, *wg, u); });
      ws.run(ws.n - 1, *wg, u);
      th.join();
    }
    ws.check();
    SIM_CHECK(wg->Count() == 0, "count", "Count() is %zu after everything is done", wg->Count());
    Slots slots{kFs};
    for (int i = 0; i < n; ++i) {
      auto& f = v[std::size_t(i)];
      if (consumed) {
        SIM_CHECK(!f.Valid(), "valid", "a consumed future is still Valid");
        continue;
      }
      SIM_CHECK(f.Valid() && f.Ready(), "ready", "an attached future is not Ready after the wait");
      consume(std::move(f), mode[std::size_t(i)], Watch{&slots, i, &u.begun[i], &u.plain[i]}, *e);
      const Out want = expected<Val, Err>(os[std::size_t(i)]);
      SIM_CHECK(slots.count(i) == 1 && slots.last(i) == want, "intact", "an attached future delivered %d times, last %c%d", slots.count(i), slots.last(i).k, slots.last(i).id);
    }
  }
  wg = nullptr;
  e = nullptr;
  ex.shutdown();
  check_no_live("after the wait group");
}

struct AddJob final : yaclib::Job {
  Units* u;
  Slots* s;
  int slot;
  void Call() noexcept final {
    s->see(slot, value(2));
    u->released("TryAdd");
  }
  void Drop() noexcept final { sim::fail(sim::kOracle, "dropped", "a job added to an event is dropped"); }
};

void event() {
  Execs ex;
  auto ev = std::make_unique<Event>();
  const int rounds = 1 + int(sim::gen(2));
  for (int round = 0; round < rounds; ++round) {
    Units u;
    const int unit = u.add();
    Waiters ws{ex, 1 + int(sim::gen(4)), true};
    const int adders = int(sim::gen(3));
    Slots js{4};
    AddJob jobs[4];
    bool added[4] = {};
    int jdelay[4];
    for (int i = 0; i < 4; ++i) {
      jobs[i].u = &u;
      jobs[i].s = &js;
      jobs[i].slot = i;
      jdelay[i] = int(sim::gen(5));
    }
    const int delay = int(sim::gen(8));
    SIM_CHECK(!ev->Ready(), "early", "a fresh event is Ready");
    {
      Threads th;
      for (int i = 0; i < ws.n; ++i) th.go([&, i] { ws.run(i, *ev, u); });
      for (int i = 0; i < adders; ++i) {
        th.go([&, i] {
          for (int j = i; j < 4; j += adders) {
            for (int d = 0; d < jdelay[j]; ++d) sim::yield();
            added[j] = ev->TryAdd(jobs[j]);
            if (!added[j]) {
              u.released("failed TryAdd");
              SIM_CHECK(ev->Ready(), "ready", "TryAdd failed but the event is not Ready");
            }
            if (ev->Ready()) u.released("Ready");
          }
        });
      }
      for (int d = 0; d < delay; ++d) sim::yield();
      u.begin(unit);
      ev->Set();
      SIM_CHECK(ev->Ready(), "ready", "an event is not Ready after Set");
      th.join();
    }
    ws.check();
    for (int j = 0; j < 4; ++j) {
      const int want = adders && added[j] ? 1 : 0;
      SIM_CHECK(js.count(j) == want, "exactly-once", "a job %s was called %d times", want ? "added to the event" : "the event refused", js.count(j));
    }
    ev->Reset();
  }
  ev = nullptr;
  ex.shutdown();
  check_no_live("after the event");
}

// Event::Call releases everybody registered so far without making the event ready; Set finishes the rest.
void pulses() {
  auto ev = std::make_unique<Event>();
  Units u;
  Slots js{32};
  AddJob jobs[32];
  bool added[32] = {};
  const int n = 1 + int(amount(5, 30));
  int delay[32];
  for (int i = 0; i < n; ++i) {
    jobs[i].u = &u;
    jobs[i].s = &js;
    jobs[i].slot = i;
    delay[i] = int(sim::gen(3));
  }
  const int calls = 1 + int(sim::gen(3));
  {
    Threads th;
    th.go([&] {
      for (int i = 0; i < n; i += 2) {
        for (int d = 0; d < delay[i]; ++d) sim::yield();
        added[i] = ev->TryAdd(jobs[i]);
      }
    });
    th.go([&] {
      for (int i = 1; i < n; i += 2) {
        for (int d = 0; d < delay[i]; ++d) sim::yield();
        added[i] = ev->TryAdd(jobs[i]);
      }
    });
    for (int k = 0; k < calls; ++k) {
      sim::yield();
      ev->Call();
      SIM_CHECK(!ev->Ready(), "early", "an event is Ready after Call");
    }
    ev->Set();
    th.join();
  }
  for (int i = 0; i < n; ++i) SIM_CHECK(js.count(i) == (added[i] ? 1 : 0), "exactly-once", "a job %s was called %d times", added[i] ? "added to the event" : "the event refused", js.count(i));
}

// Call releases whoever is registered and leaves the event as it was; Set comes last.
struct Calls {
  HostInt began, ended, set;
  int plain[8] = {};  // written before the call of that number
  int total = 0;
  int before() const { return ended.get(); }
  void released(const char* how, int before) {
    SIM_CHECK(began.get() > before || set.get() > 0, "early", "%s was released although nobody called the event since it came", how);
    const int first = before < total ? before : total - 1;
    SIM_CHECK(plain[first] == 1, "lost-write", "%s was released but does not see what was written before call %d", how, first);
  }
};
struct CountJob : yaclib::Job {
  HostInt calls, added;
  int before = 0;
  Calls* c = nullptr;
  void Call() noexcept final {
    SIM_CHECK(calls.add(1) == 1, "exactly-once", "a job of the event is called %d times", calls.get());
    c->released("a job", before);
  }
};
yaclib::Future<int, Err> coro_rounds(Event& ev, int how, int rounds, Calls& c, Proxy* home, Proxy* e) {
  Tok t{5};
  if (home) co_await On(*home);
  for (int i = 0; i < rounds; ++i) {
    const int before = c.before();
    switch ((how + i) % 4) {
      case 0:
        co_await ev.AwaitInline();
        break;
      case 1:
        co_await ev;
        break;
      case 2:
        co_await ev.AwaitSticky();
        break;
      default:
        co_await ev.AwaitOn(*e);
        SIM_CHECK(top_tag() == e->tag(), "where", "AwaitOn resumed outside of the named executor");
        break;
    }
    c.released(kWait[wInline + (how + i) % 4], before);
    t.use();
  }
  co_return rounds;
}
void calls() {
  Execs ex;
  {
    auto home = ex.random(kLiveKinds);
    auto e = ex.random(kLiveKinds);
    auto ev = std::make_unique<Event>();
    Calls c;
    c.total = 1 + int(sim::gen(4));  // the last one is Set
    const int blockers = int(sim::gen(3)), coros = int(sim::gen(4)), jobs = int(sim::gen(4));
    u32 how[8], rounds[8], delay[8];
    for (int i = 0; i < 8; ++i) how[i] = sim::gen(4), rounds[i] = 1 + sim::gen(4), delay[i] = sim::gen(6);
    const bool homes = sim::gen(2);
    CountJob js[4];
    std::vector<yaclib::Future<int, Err>> fs;
    fs.resize(std::size_t(coros));
    {
      Threads th;
      for (int i = 0; i < blockers; ++i) {
        th.go([&, i] {
          Event::Waiter mine;
          for (u32 k = 0; k < rounds[i]; ++k) {
            for (u32 d = 0; d < delay[i]; ++d) sim::yield();
            const int before = c.before();
            switch ((how[i] + k) % 3) {
              case 0:
                ev->Wait();
                break;
              case 1:
                if (!block(*ev, wWaitFor, u64(delay[i]) * 400)) {
                  sim::scribble_stack();
                  continue;
                }
                break;
              default: {  // the documented way to keep a waiter
                mine.Reset();
                if (ev->TryAdd(mine)) {
                  auto token = mine.Make();
                  mine.Wait(token);
                }
                break;
              }
            }
            c.released("a blocked thread", before);
            sim::scribble_stack();
          }
        });
      }
      for (int i = 0; i < coros; ++i) {
        if (sim::gen(2)) {
          fs[std::size_t(i)] = coro_rounds(*ev, int(how[4 + i]), int(rounds[4 + i]), c, homes ? home.Get() : nullptr, e.Get());
        } else {
          th.go([&, i] { fs[std::size_t(i)] = coro_rounds(*ev, int(how[4 + i]), int(rounds[4 + i]), c, homes ? home.Get() : nullptr, e.Get()); });
        }
      }
      for (int i = 0; i < jobs; ++i) {
        th.go([&, i] {
          js[i].c = &c;
          for (u32 d = 0; d < delay[7 - i]; ++d) sim::yield();
          js[i].before = c.before();
          const bool was_set = c.set.get() == 2;
          const bool added = ev->TryAdd(js[i]);
          SIM_CHECK(!(was_set && added), "late-add", "TryAdd accepted a job after Set");
          SIM_CHECK(added || c.set.get() > 0, "refused", "TryAdd refused a job although nobody called Set");
          js[i].added.set(added);
        });
      }
      for (int i = 0; i < c.total; ++i) {
        for (u32 d = 0; d < delay[i]; ++d) sim::yield();
        c.plain[i] = 1;
        if (i + 1 < c.total) {
          c.began.add(1);
          ev->Call();
          SIM_CHECK(!ev->Ready(), "ready", "the event is ready although it was only called");
          c.ended.add(1);
        } else {
          c.set.set(1);
          ev->Set();
          c.set.set(2);
          SIM_CHECK(ev->Ready(), "ready", "the event is not ready after Set");
        }
      }
      th.join();
    }
    for (int i = 0; i < coros; ++i) {
      auto r = std::move(fs[std::size_t(i)]).Get();
      SIM_CHECK(out(r) == value(int(rounds[4 + i])), "result", "the coroutine ended with %c%d", out(r).k, out(r).id);
    }
    for (int i = 0; i < jobs; ++i) SIM_CHECK(js[i].calls.get() == js[i].added.get(), "exactly-once", "a job was added %d times and called %d times", js[i].added.get(), js[i].calls.get());
    ev = nullptr;
  }
  ex.shutdown();
  check_no_live("after the calls");
}

sim::Workload a{"c16/wait_group", "C16", wait_group, sim::kAll, 5, 30000};
sim::Workload b{"c16/short_lived", "C16", short_lived, sim::kAll, 3};
sim::Workload e{"c16/futures", "C16", futures_only<F>, sim::kAll, 2};
sim::Workload f{"c16/futures_on", "C16", futures_only<FO>, sim::kAll, 1};
sim::Workload c{"c16/event", "C16", event, sim::kAll, 3};
sim::Workload d{"c16/pulses", "C16", pulses, sim::kAll, 1};
sim::Workload g{"c16/calls", "C16", calls, sim::kAll, 2};
}  // namespace
