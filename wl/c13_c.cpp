// C13: several coroutines on the same executors, waiting for each other, for an event and for a mutex.
#include "c13.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/coro/mutex.hpp>

namespace c13 {
namespace {

enum CrowdOp : u32 { kGo, kGo2, kPause, kPause2, kPause3, kShare, kShareOn, kShareSticky, kLocked, kEvent, kEventOn, kEventSticky, kNested, kOwn, kCrowdOps };
constexpr int kMembers = 5, kRounds = 8;
using SI = yaclib::SharedFuture<int>;

struct Crowd {
  Execs ex;
  std::vector<ProxyPtr> e;
  yaclib::OneShotEvent event;
  yaclib::Mutex<> mutex;
  int told = 0;     // written before the event is set
  int guarded = 0;  // guarded by the mutex
  int n = 0;
  int setter = 0, at = 0;
  struct Member {
    int rounds = 0, home = 0;
    u32 op[kRounds] = {};
    int who[kRounds] = {};
    int exec[kRounds] = {};
    bool boom = false;
    HostInt passed, ended;
    int wrote = 0;  // plain
  } m[kMembers];
  HostInt locks;
  void where(int cur, const char* after) const {
    if (cur < 0) return;
    SIM_CHECK(top_tag() == e[std::size_t(cur)]->tag(), "where", "after %s the coroutine runs in executor %s instead of %s", after, ex.name(top_tag()), ex.name(e[std::size_t(cur)]->tag()));
  }
  // a coroutine always has an executor of its own: an explicit one or, if it inherited nothing else, the inline one
  void own(const yaclib::IExecutor& x) const {
    for (auto& p : e) {
      if (p.Get() == &x) {
        SIM_CHECK(top_tag() == p->tag(), "where", "Yield names executor %s but resumed in %s", ex.name(p->tag()), ex.name(top_tag()));
        return;
      }
    }
    SIM_CHECK(&x == &yaclib::MakeInline(), "where", "a coroutine runs on an executor nobody gave it");
  }
  void tell() {
    told = 1;
    event.Set();
  }
};

yaclib::Task<int> nested(Crowd& c, int to, Tok t) {
  co_await On(*c.e[std::size_t(to)]);
  t.use();
  co_await yaclib::kYield;
  t.use();
  co_return to;
}

bool is_boom(const yaclib::Result<int>& r, int id) {
  if (r.State() != yaclib::ResultState::Exception) return false;
  try {
    std::rethrow_exception(r.Exception());
  } catch (Boom& b) {
    return b.id == id;
  } catch (...) {
    return false;
  }
}
int outcome(Crowd& c, int who, const yaclib::Result<int>& r) {
  SIM_CHECK(c.m[who].wrote == 1, "lost-write", "a write of the awaited coroutine is not visible");
  if (c.m[who].boom) {
    SIM_CHECK(is_boom(r, who), "value", "coroutine %d failed but something else was delivered", who);
  } else {
    SIM_CHECK(r.State() == yaclib::ResultState::Value && r.Value() == 100 + who, "value", "coroutine %d delivered something else", who);
  }
  return who;
}

template <typename Ret>
Ret member(Crowd& c, int i, std::vector<SI> before, Tok t) {
  auto& me = c.m[i];
  Tok local{1};
  int mine = 0;
  co_await On(*c.e[std::size_t(me.home)]);
  int cur = me.home;
  c.where(cur, "On");
  for (int k = 0; k < me.rounds; ++k) {
    auto& to = *c.e[std::size_t(me.exec[k])];
    const int who = me.who[k];
    u32 op = me.op[k];
    if (who < 0 && op >= kShare && op <= kShareSticky) op = kPause;
    if (i == c.setter && op >= kEvent && op <= kEventSticky) op = kPause;
    if (cur < 0 && op == kLocked) op = kGo;
    if (i == c.setter && k == c.at) c.tell();
    switch (op) {
      case kGo:
      case kGo2:
        co_await On(to);
        cur = me.exec[k];
        break;
      case kPause:
      case kPause2:
      case kPause3:
        co_await yaclib::kYield;
        break;
      case kShare: {
        bool threw = false;
        try {
          const int v = co_await before[std::size_t(who)];
          SIM_CHECK(v == 100 + who, "value", "coroutine %d delivered %d", who, v);
        } catch (Boom& b) {
          threw = true;
          SIM_CHECK(b.id == who, "value", "coroutine %d threw %d", who, b.id);
        }
        SIM_CHECK(threw == c.m[who].boom, "value", "coroutine %d failed: %d, delivered a failure: %d", who, c.m[who].boom, threw);
        SIM_CHECK(c.m[who].wrote == 1, "lost-write", "a write of the awaited coroutine is not visible");
        cur = -1;
        break;
      }
      case kShareOn:
        co_await AwaitOn(to, before[std::size_t(who)]);
        outcome(c, who, std::as_const(before[std::size_t(who)]).Touch());
        cur = me.exec[k];
        break;
      case kShareSticky:
        co_await AwaitSticky(before[std::size_t(who)]);
        outcome(c, who, std::as_const(before[std::size_t(who)]).Touch());
        break;
      case kOwn: {
        auto& x = co_await yaclib::Yield();
        c.own(x);
        if (cur >= 0) SIM_CHECK(&x == c.e[std::size_t(cur)].Get(), "where", "the coroutine's own executor is another one");
        break;
      }
      case kLocked: {
        auto g = co_await c.mutex.Guard();
        c.locks.add(1);
        const int was = c.guarded++;
        if (k % 3 == 0) co_await yaclib::kYield;
        SIM_CHECK(c.guarded == was + 1, "overlap", "two coroutines own the mutex");
        if (k % 2) co_await g.Unlock();
        cur = -1;
        break;
      }
      case kEvent:
        co_await c.event;
        SIM_CHECK(c.told == 1, "early", "resumed by an event that was not set");
        cur = -1;
        break;
      case kEventOn:
        co_await c.event.AwaitOn(to);
        SIM_CHECK(c.told == 1, "early", "resumed by an event that was not set");
        cur = me.exec[k];
        break;
      case kEventSticky:
        co_await c.event.AwaitSticky();
        SIM_CHECK(c.told == 1, "early", "resumed by an event that was not set");
        break;
      default: {
        const int v = co_await nested(c, me.exec[k], Tok{2});
        SIM_CHECK(v == me.exec[k], "value", "a nested task delivered %d", v);
        cur = -1;
        break;
      }
    }
    c.where(cur, "an await");
    ++mine;
    me.passed.add(1);
    SIM_CHECK(me.passed.get() == mine, "exactly-once", "coroutine %d was resumed twice", i);
    local.use();
    t.use();
  }
  if (i == c.setter && c.at >= me.rounds) c.tell();
  me.wrote = 1;
  me.ended.add(1);
  if (me.boom) throw Boom{i};
  co_return 100 + i;
}

void crowd() {
  {
    Crowd c;
    c.n = 2 + int(sim::gen(kMembers - 1));
    const int execs = 1 + int(sim::gen(3));
    for (int i = 0; i < execs; ++i) c.e.push_back(c.ex.random(kLiveKinds));
    const u32 only = sim::gen(3) ? ~0u : sim::gen(kCrowdOps);
    const int len = 1 + int(sim::gen(kRounds));
    for (int i = 0; i < c.n; ++i) {
      auto& m = c.m[i];
      m.rounds = 1 + int(sim::gen(u32(len)));
      m.home = int(sim::gen(u32(execs)));
      m.boom = sim::gen(4) == 0;
      for (int k = 0; k < m.rounds; ++k) {
        m.op[k] = sim::gen(kCrowdOps);
        if (only != ~0u && sim::gen(2)) m.op[k] = only;
        m.exec[k] = int(sim::gen(u32(execs)));
        m.who[k] = i == 0 ? -1 : int(sim::gen(u32(i)));
      }
    }
    c.setter = sim::gen(2) ? 0 : -1;
    c.at = int(sim::gen(u32(len) + 1));
    {
      std::vector<SI> all;
      for (int i = 0; i < c.n; ++i) {
        all.push_back(member<SI>(c, i, all, Tok{3}));
        pause(2);
      }
      if (c.setter < 0) c.tell();
      for (int i = 0; i < c.n; ++i) outcome(c, i, all[std::size_t(i)].Get());
    }
    c.ex.shutdown();
    for (int i = 0; i < c.n; ++i) {
      SIM_CHECK(c.m[i].passed.get() == c.m[i].rounds && c.m[i].ended.get() == 1, "exactly-once", "coroutine %d passed %d awaits of %d, ended %d times", i, c.m[i].passed.get(), c.m[i].rounds, c.m[i].ended.get());
    }
    SIM_CHECK(c.guarded == c.locks.get(), "overlap", "%d increments of %d under the mutex survived", c.guarded, c.locks.get());
    int sent = 0;
    for (auto& e : c.e) {
      SIM_CHECK(e->called() == e->submitted() && e->dropped() == 0, "xor", "a submitted coroutine was not resumed");
      sent += e->submitted();
    }
    SIM_CHECK(sent >= c.n, "submissions", "coroutines did not go through their executors");
    c.e.clear();
  }
  check_no_live("after the coroutines");
}

sim::Workload a{"c13/crowd", "C13", crowd, sim::kAll, 2};
}  // namespace
}  // namespace c13
