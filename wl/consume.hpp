// Ways to consume a Future / FutureOn, shared by several properties.
#pragma once
#include "kit.hpp"

#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/shared_future.hpp>

#include <chrono>

namespace kit {

using namespace std::chrono_literals;

// The same outcome, delivered by a coroutine that waited for f: it completes with a symmetric transfer.
template <typename V, typename E>
yaclib::Future<V, E> relay(yaclib::Future<V, E> f) {
  Tok t{70};
  co_await yaclib::AwaitInline(f);
  t.use();
  co_return std::move(f).Touch();
}
template <typename V, typename E>
yaclib::SharedFuture<V, E> relay_shared(yaclib::Future<V, E> f) {
  Tok t{71};
  co_await yaclib::AwaitInline(f);
  t.use();
  co_return std::move(f).Touch();
}

enum Mode {
  mGet,
  mWaitTouch,
  mWaitForLoop,
  mWaitUntilLoop,
  mPoll,
  mPollConstGet,
  mInline,
  mThen,
  mChain,
  mConnect,
  mConnectFar,
  mWaitInline,
  mTimedThen,
  mDetachInline,
  mDetach,
  mModesObserved,
  mDrop = mModesObserved,
  mDetachNothing,
  mModes
};
inline const char* mode_name(int m) {
  static const char* const n[] = {"Get", "Wait+Touch", "WaitFor*", "WaitUntil*", "poll+Touch", "poll+Get()const", "ThenInline", "Then(e)", "chain", "Connect", "Connect to another thread's", "Wait+ThenInline",
                                  "WaitFor+Then", "DetachInline", "Detach(e)", "drop", "Detach()"};
  return n[m];
}

template <typename F>
struct FutureTypes;
template <typename V, typename E>
struct FutureTypes<yaclib::Future<V, E>> {
  using V_ = V;
  using E_ = E;
  static constexpr bool on = false;
};
template <typename V, typename E>
struct FutureTypes<yaclib::FutureOn<V, E>> {
  using V_ = V;
  using E_ = E;
  static constexpr bool on = true;
};

// what an observer checks the moment it sees the outcome
struct Watch {
  Slots* slots;
  int slot;
  HostInt* started = nullptr;  // the producer has begun to fulfil
  int* written = nullptr;      // plain memory written by the producer before it fulfils
  void operator()(Out o) const {
    if (started) SIM_CHECK(started->get() != 0, "early", "an observer got outcome %c%d before the producer fulfilled", o.k, o.id);
    if (written) SIM_CHECK(*written == 1, "lost-write", "a write made before fulfilment is not visible to the observer");
    slots->see(slot, o);
  }
};

template <typename V, typename E>
auto observe_cb(Watch w) {
  return [w, t = Tok{1}](yaclib::Result<V, E>&& r) {
    t.use();
    w(out(r));
    return 7;
  };
}

inline void settle_chain(yaclib::Future<int, Err>&& f) {
  auto r = std::move(f).Get();
  SIM_CHECK(out(r) == value(7), "chain", "the step after the observer did not receive its return value");
}

// Runs on the consuming thread. Returns when the observation (if any) has been made.
template <typename F>
void consume(F f, int mode, Watch w, yaclib::IExecutor& e) {
  using V = typename FutureTypes<F>::V_;
  using E = typename FutureTypes<F>::E_;
  using R = yaclib::Result<V, E>;
  auto finish = [](auto&& g) {
    auto r = std::move(g).Get();
    SIM_CHECK(r.State() == yaclib::ResultState::Value && std::as_const(r).Value() == 7, "chain", "the step after the observer did not receive its return value");
  };
  SIM_CHECK(f.Valid(), "valid", "the future is not Valid before it is consumed");
  switch (mode) {
    case mGet: {
      auto r = std::move(f).Get();
      w(out(r));
      break;
    }
    case mWaitTouch: {
      Wait(f);
      SIM_CHECK(f.Valid() && f.Ready(), "ready", "Wait returned but the future is not Ready");
      if (sim::genp(1, 2)) {
        w(out(std::as_const(f).Touch()));
      } else {
        auto r = std::move(f).Touch();
        w(out(r));
      }
      break;
    }
    case mWaitForLoop: {
      const u64 ns = sim::gen(4) * 700;
      int i = 0;
      for (;; ++i) {
        const u64 t0 = sim::now();
        const bool ok = i < 12 ? WaitFor(std::chrono::nanoseconds(ns), f) : (Wait(f), true);
        if (ok) break;
        sim::count(sim::kTimeout);
        SIM_CHECK(sim::now() >= t0 + ns, "early-timeout", "WaitFor returned false before its deadline");
      }
      SIM_CHECK(f.Ready(), "ready", "WaitFor returned true but the future is not Ready");
      auto r = std::move(f).Touch();
      w(out(r));
      break;
    }
    case mWaitUntilLoop: {
      int i = 0;
      for (;; ++i) {
        const auto dl = std::chrono::steady_clock::now() + std::chrono::nanoseconds(sim::gen(3) * 900);
        const bool ok = i < 8 ? WaitUntil(dl, f) : (Wait(f), true);
        if (ok) break;
        sim::count(sim::kTimeout);
        SIM_CHECK(std::chrono::steady_clock::now() >= dl, "early-timeout", "WaitUntil returned false before its deadline");
      }
      SIM_CHECK(f.Ready(), "ready", "WaitUntil returned true but the future is not Ready");
      auto r = std::move(f).Get();
      w(out(r));
      break;
    }
    case mPoll: {
      for (int i = 0; i < 60 && !f.Ready(); ++i) sim::yield();
      if (!f.Ready()) Wait(f);
      auto r = std::move(f).Touch();
      w(out(r));
      break;
    }
    case mPollConstGet: {
      const R* p = nullptr;
      for (int i = 0; i < 60 && !p; ++i) {
        p = std::as_const(f).Get();
        if (!p) sim::yield();
      }
      if (!p) {
        Wait(f);
        p = std::as_const(f).Get();
        SIM_CHECK(p != nullptr, "ready", "Get() const returns null after Wait");
      }
      w(out(*p));
      break;
    }
    case mInline:
      finish(std::move(f).ThenInline(observe_cb<V, E>(w)));
      break;
    case mThen:
      finish(std::move(f).Then(e, observe_cb<V, E>(w)));
      break;
    case mChain: {
      auto cb = [t = Tok{2}](R&& r) {
        t.use();
        return R{std::move(r)};
      };
      if (sim::genp(1, 2)) {
        finish(std::move(f).ThenInline(std::move(cb)).Then(e, observe_cb<V, E>(w)));
      } else {
        finish(std::move(f).Then(e, std::move(cb)).ThenInline(observe_cb<V, E>(w)));
      }
      break;
    }
    case mConnect: {
      auto [f2, p2] = yaclib::MakeContract<V, E>();
      if (sim::genp(1, 2)) {
        Connect(std::move(f), std::move(p2));
        auto r = std::move(f2).Get();
        w(out(r));
      } else {
        auto g = std::move(f2).ThenInline(observe_cb<V, E>(w));
        Connect(std::move(f), std::move(p2));
        finish(std::move(g));
      }
      break;
    }
    case mConnectFar: {  // the other end is consumed by a thread of its own, before or after it is connected
      auto [f2, p2] = yaclib::MakeContract<V, E>();
      const int sub = int(sim::gen(mModesObserved - 1));
      Threads th;
      th.go([f2 = std::move(f2), sub, w, &e]() mutable { consume<yaclib::Future<V, E>>(std::move(f2), sub < mConnectFar ? sub : sub + 1, w, e); });
      for (u32 i = sim::gen(5); i != 0; --i) sim::yield();
      Connect(std::move(f), std::move(p2));
      SIM_CHECK(!f.Valid() && !p2.Valid(), "valid", "a future or a promise is Valid after Connect");
      th.join();
      break;
    }
    case mWaitInline: {
      Wait(f);
      finish(std::move(f).ThenInline(observe_cb<V, E>(w)));
      break;
    }
    case mTimedThen: {
      const u64 t0 = sim::now();
      if (!WaitFor(500ns, f)) {
        sim::count(sim::kTimeout);
        SIM_CHECK(sim::now() >= t0 + 500, "early-timeout", "WaitFor returned false before its deadline");
      }
      sim::scribble_stack();
      finish(std::move(f).Then(e, observe_cb<V, E>(w)));
      break;
    }
    case mDetachInline: {
      Latch l{1};
      std::move(f).DetachInline([w, &l, t = Tok{3}](R&& r) {
        t.use();
        w(out(r));
        l.done();
      });
      l.wait();
      break;
    }
    case mDetach: {
      Latch l{1};
      std::move(f).Detach(e, [w, &l, t = Tok{4}](R&& r) {
        t.use();
        w(out(r));
        l.done();
      });
      l.wait();
      break;
    }
    case mDrop:
      switch (sim::gen(3)) {
        case 1:
          f = F{};
          break;
        case 2: {
          F g{std::move(f)};
          F h;
          g = std::move(h);
          SIM_CHECK(!f.Valid() && !g.Valid(), "valid", "an overwritten future is Valid");
          break;
        }
        default:
          break;
      }
      break;
    case mDetachNothing:
      std::move(f).Detach();
      break;
  }
}

// Fulfil a promise with a planned outcome, through one of the equivalent forms of Set (or dropping it).
template <typename P, typename V, typename E>
void fulfil(P p, Out o, u32 form) {
  switch (o.k) {
    case 'V':
      if constexpr (std::is_void_v<V>) {
        if (form % 2 == 0) {
          std::move(p).Set();
        } else {
          std::move(p).Set(yaclib::Result<V, E>{yaclib::Unit{}});
        }
      } else {
        if (form % 3 == 0) {
          std::move(p).Set(Pay<V>::make(o.id));
        } else if (form % 3 == 1) {
          std::move(p).Set(std::in_place, Pay<V>::make(o.id));
        } else {
          std::move(p).Set(make_result<V, E>(o));
        }
      }
      break;
    case 'E':
      if (form % 2 == 0) {
        std::move(p).Set(PayE<E>::make(o.id));
      } else {
        std::move(p).Set(make_result<V, E>(o));
      }
      break;
    case 'X':
      if (form % 2 == 0) {
        std::move(p).Set(boom(o.id));
      } else {
        std::move(p).Set(make_result<V, E>(o));
      }
      break;
    default:  // dropped
      sim::count(sim::kDrop);
      break;
  }
}
// The promise changes hands before it is fulfilled.
template <typename P, typename V, typename E>
void hand_over(P p, Out o, u32 form, u32 way) {
  switch (way) {
    case 1: {
      P q{std::move(p)};
      SIM_CHECK(!p.Valid() && q.Valid(), "valid", "a moved-from promise is Valid");
      return fulfil<P, V, E>(std::move(q), o, form);
    }
    case 2: {
      P q;
      SIM_CHECK(!q.Valid(), "valid", "a default constructed promise is Valid");
      q = std::move(p);
      SIM_CHECK(!p.Valid() && q.Valid(), "valid", "a moved-from promise is Valid");
      return fulfil<P, V, E>(std::move(q), o, form);
    }
    case 3: {  // assigned over another one, whose future is told that it was dropped
      auto [f2, q] = yaclib::MakeContract<V, E>();
      {
        P x{std::move(p)};
        q = std::move(x);
      }
      auto r = std::move(f2).Get();
      SIM_CHECK(out(r) == stopped(), "overwritten", "the future of an overwritten promise got %c%d", out(r).k, out(r).id);
      fulfil<P, V, E>(std::move(q), o, form);
      return;
    }
    case 4: {  // overwritten itself when it has to be dropped
      auto [f2, q] = yaclib::MakeContract<V, E>();
      if (o.k == 'D') {
        sim::count(sim::kDrop);
        P x{std::move(q)};
        p = std::move(x);
      } else {
        using std::swap;
        swap(p, q);
        fulfil<P, V, E>(std::move(q), o, form);
        o = Out{'V', 3};
      }
      fulfil<P, V, E>(std::move(p), Out{'V', 3}, 0);
      auto r = std::move(f2).Get();
      const Out three = norm<V, E>(Out{'V', 3});
      SIM_CHECK(out(r) == three, "intact", "the other future got %c%d", out(r).k, out(r).id);
      return;
    }
    case 5: {  // dropped while an exception unwinds
      struct Gone {};
      if (o.k != 'D') return fulfil<P, V, E>(std::move(p), o, form);
      try {
        P q{std::move(p)};
        sim::count(sim::kDrop);
        throw Gone{};
      } catch (Gone&) {
      }
      return;
    }
    default:
      return fulfil<P, V, E>(std::move(p), o, form);
  }
}
inline Out random_out(bool may_drop) {
  const u32 k = sim::gen(may_drop ? 6 : 5);
  const int id = 1 + int(sim::gen(5));
  return k < 3 ? value(id) : k == 3 ? error(id) : k == 4 ? except(id) : Out{'D', 0};
}
template <typename V, typename E>
Out expected(Out o) {
  return o.k == 'D' ? stopped() : norm<V, E>(o);
}

}  // namespace kit
