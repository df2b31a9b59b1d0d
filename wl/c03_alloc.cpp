// C03: allocations and the copies of functors fail. Whatever a call has taken over is released all the same; what it has not, still works.
#include "c03.hpp"

#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/coro/task.hpp>

#include <new>
#include <optional>

namespace {
using namespace c03;

struct Refused {};
// a functor that cannot be copied at some point
struct Fn {
  Tok t{60};
  bool ok;
  explicit Fn(bool b) : ok{b} {}
  Fn(Fn&&) noexcept = default;
  Fn(const Fn& o) : t{o.t}, ok{o.ok} {
    if (!ok) {
      sim::count(sim::kUser2);
      throw Refused{};
    }
  }
  template <typename... A>
  Val operator()(A&&...) const {
    t.use();
    return Val{77};
  }
};
struct FnV : Fn {
  using Fn::Fn;
  template <typename... A>
  void operator()(A&&...) const {
    t.use();
  }
};
struct FnP : Fn {
  using Fn::Fn;
  template <typename P>
  void operator()(P&& p) const {
    t.use();
    std::move(p).Set(Val{78});
  }
};

// call(lvalue or rvalue functor); true if it failed
template <typename G, typename Call>
bool attempt(u32 mode, u32 nth, Call&& call) {
  try {
    if (mode == 1) {
      const G g{false};
      call(g);
    } else {
      G g{true};
      struct End {
        bool armed;
        ~End() {
          if (armed) sim::end_fail_alloc();
        }
      } end{mode == 0};
      if (end.armed) sim::fail_alloc(nth);
      call(std::move(g));
    }
  } catch (std::bad_alloc&) {
    return true;
  } catch (Refused&) {
    return true;
  }
  return false;
}

kit::F coro(kit::F f, Tok t) {
  t.use();
  Tok local{61};
  Val v = co_await std::move(f);
  local.use();
  co_return std::move(v);
}
yaclib::Task<Val, Err> coro_task(kit::F f, Tok t) {
  t.use();
  Tok local{62};
  Val v = co_await std::move(f);
  local.use();
  co_return std::move(v);
}

void failing() {
  {
    Env env{kLiveKinds, 2, nullptr};
    const u32 op = sim::gen(40);
    const u32 mode = sim::gen(3);  // 0: the nth allocation fails, 1: the functor cannot be copied, 2: nothing fails
    const u32 after = sim::gen(3), end = sim::gen(eEnds), n = 1 + sim::gen(3);
    auto& e = *env.e[0];
    const Out o = random_out(true);
    const u32 form = sim::gen(6), delay = sim::gen(5);
    auto [f, p] = yaclib::MakeContract<Val, Err>();
    auto [sf, sp] = yaclib::MakeSharedContract<Val, Err>();
    sim::log("op %u mode %u", op, mode);
    Threads th;
    th.go([p = std::move(p), sp = std::move(sp), o, form, delay]() mutable {
      for (u32 i = 0; i < delay; ++i) sim::yield();
      fulfil<kit::P, Val, Err>(std::move(p), o, form);
      fulfil<kit::SP, Val, Err>(std::move(sp), o, form);
    });
    for (u32 i = 0; i < after; ++i) sim::yield();
    bool failed = false, fn = true;
    std::optional<kit::F> out_f;
    std::optional<kit::FO> out_fo;
    std::optional<kit::SFut> out_sf;
    auto keep = [&](auto x) {
      using X = decltype(x);
      if constexpr (std::is_same_v<X, kit::F>) {
        out_f = std::move(x);
      } else if constexpr (std::is_same_v<X, kit::FO>) {
        out_fo = std::move(x);
      } else {
        out_sf = std::move(x);
      }
    };
    auto fresh = [&](auto&& g) { return std::forward<decltype(g)>(g); };
    (void)fresh;
    switch (op) {
      case 0:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { auto c = yaclib::MakeContract<Val, Err>(); });
        break;
      case 1:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { auto c = yaclib::MakeContractOn<Val, Err>(e); });
        break;
      case 2:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(std::move(f).ThenInline(std::forward<decltype(g)>(g))); });
        break;
      case 3:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(std::move(f).Then(e, std::forward<decltype(g)>(g))); });
        break;
      case 4:
        failed = attempt<FnV>(mode, 1, [&](auto&& g) { std::move(f).DetachInline(std::forward<decltype(g)>(g)); });
        break;
      case 5:
        failed = attempt<FnV>(mode, 1, [&](auto&& g) { std::move(f).Detach(e, std::forward<decltype(g)>(g)); });
        break;
      case 6:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(sf.ThenInline(std::forward<decltype(g)>(g))); });
        break;
      case 7:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(sf.Then(e, std::forward<decltype(g)>(g))); });
        break;
      case 8:
        failed = attempt<FnV>(mode, 1, [&](auto&& g) { sf.SubscribeInline(std::forward<decltype(g)>(g)); });
        break;
      case 9:
        failed = attempt<FnV>(mode, 1, [&](auto&& g) { sf.Subscribe(e, std::forward<decltype(g)>(g)); });
        break;
      case 10:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(yaclib::Run<Err>(e, std::forward<decltype(g)>(g))); });
        break;
      case 11:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(yaclib::Run<Err>(std::forward<decltype(g)>(g))); });
        break;
      case 12:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(yaclib::RunShared<Err>(std::forward<decltype(g)>(g))); });
        break;
      case 13:
        failed = attempt<FnP>(mode, 1, [&](auto&& g) { keep(yaclib::AsyncContract<Val, Err>(e, std::forward<decltype(g)>(g))); });
        break;
      case 14:
        failed = attempt<Fn>(mode, 1, [&](auto&& g) {
          auto t = yaclib::Schedule<Err>(e, std::forward<decltype(g)>(g));
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(t).ToFuture());
        });
        break;
      case 15:
        failed = attempt<FnP>(mode, 1, [&](auto&& g) {
          auto t = yaclib::LazyContract<Val, Err>(e, std::forward<decltype(g)>(g));
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(t).ToFuture());
        });
        break;
      case 16: {
        auto t = yaclib::Schedule<Err>(e, [k = Tok{63}] {
          k.use();
          return Val{5};
        });
        failed = attempt<Fn>(mode, 1, [&](auto&& g) {
          auto u = std::move(t).Then(std::forward<decltype(g)>(g));
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(u).ToFuture());
        });
        if (failed && t.Valid() && n != 1) let_go(std::move(t).ToFuture(), env, end, th);
        break;
      }
      case 17: {
        auto t = yaclib::MakeTask<Val, Err>(Val{6});
        failed = attempt<Fn>(mode, 1, [&](auto&& g) {
          auto u = std::move(t).ThenInline(std::forward<decltype(g)>(g));
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(u).ToFuture());
        });
        if (failed && t.Valid() && n != 1) let_go(std::move(t).ToFuture(), env, end, th);
        break;
      }
      case 18:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { keep(yaclib::MakeFuture<Val, Err>(std::in_place, 7)); });
        break;
      case 19:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { auto t = yaclib::MakeTask<Val, Err>(boom(4)); });
        break;
      case 20:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { keep(Split(std::move(f))); });
        break;
      case 21:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { keep(Share(sf)); });
        break;
      case 22:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&& g) { keep(coro(std::move(f), Tok{std::move(const_cast<Fn&>(g).t)})); });
        break;
      case 23:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&& g) {
          auto t = coro_task(std::move(f), Tok{std::move(const_cast<Fn&>(g).t)});
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(t).ToFuture(e));
        });
        break;
      case 24:
        failed = attempt<FnV>(mode, 1, [&](auto&& g) { yaclib::Submit(e, std::forward<decltype(g)>(g)); });
        break;
      case 25:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { auto s = yaclib::MakeStrand(yaclib::IExecutorPtr{&e}); });
        break;
      case 26:
        fn = false;
        failed = attempt<Fn>(mode, 1, [&](auto&&) { auto s = yaclib::MakeManual(); });
        break;
      case 27:
        fn = false;
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) {
          auto s = yaclib::MakeFairThreadPool(2);
          sim::end_fail_alloc();
          s->Stop();
          s->Wait();
        });
        break;
      case 28: {
        fn = false;
        std::vector<kit::F> v;
        v.push_back(std::move(f));
        v.push_back(yaclib::MakeFuture<Val, Err>(std::in_place, 8));
        failed = attempt<Fn>(mode, n, [&](auto&&) {
          auto a = WhenAll(v.begin(), v.end());
          sim::end_fail_alloc();
        });
        if (failed && v[0].Valid()) f = std::move(v[0]);
        break;
      }
      case 29: {
        fn = false;
        std::vector<kit::SFut> v{sf, sf};
        failed = attempt<Fn>(mode, n + (form == 5), [&](auto&&) {
          if (delay % 2) {
            auto a = WhenAll<yaclib::FailPolicy::None>(v.begin(), v.end());
            sim::end_fail_alloc();
          } else {
            auto a = WhenAll(v.begin(), v.end());
            sim::end_fail_alloc();
          }
        });
        break;
      }
      case 30: {
        fn = false;
        std::vector<kit::F> v;
        v.push_back(std::move(f));
        v.push_back(yaclib::MakeFuture<Val, Err>(std::in_place, 8));
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) {
          if (form % 2) {
            keep(WhenAny(v.begin(), v.end()));
          } else {
            keep(WhenAny<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()));
          }
        });
        if (failed && v[0].Valid()) f = std::move(v[0]);
        break;
      }
      case 31:
        fn = false;
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) { keep(WhenAny(std::move(f), sf)); });
        break;
      case 32: {
        fn = false;
        std::vector<kit::F> v;
        v.push_back(std::move(f));
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) {
          auto j = Join(v.begin(), v.end());
          sim::end_fail_alloc();
        });
        if (failed && v[0].Valid()) f = std::move(v[0]);
        break;
      }
      case 33: {
        fn = false;
        const Val v{9};
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) {
          auto t = yaclib::MakeTask<Val, Err>(v);
          sim::end_fail_alloc();
          if (n == 1) keep(std::move(t).ToFuture());
        });
        break;
      }
      case 34: {
        fn = false;
        const Val v{9};
        failed = attempt<Fn>(mode, 1 + n % 2, [&](auto&&) { keep(yaclib::MakeFuture<Val, Err>(v)); });
        break;
      }
      case 35: {
        fn = false;
        auto [g, q] = yaclib::MakeContract<Val, Err>();
        const Val v{9};
        failed = attempt<Fn>(mode, 1, [&](auto&&) { std::move(q).Set(v); });
        if (failed && n == 1) {
          SIM_CHECK(q.Valid(), "valid", "a promise whose Set failed is not Valid");
          std::move(q).Set(v);
        }
        auto h = std::move(q);
        if (n == 2) {
          keep(std::move(g));
          if (failed) {
            auto x = std::move(h);
          }
          if (failed) failed = false;
        }
        break;
      }
      case 36: {
        fn = false;
        auto [g, q] = yaclib::MakeSharedContract<Val, Err>();
        const yaclib::Result<Val, Err> v{std::in_place, 9};
        auto g2 = g.ThenInline([k = Tok{64}](const R&) { k.use(); });
        failed = attempt<Fn>(mode, 1, [&](auto&&) { std::move(q).Set(v); });
        if (failed && n == 1) {
          SIM_CHECK(q.Valid(), "valid", "a promise whose Set failed is not Valid");
          std::move(q).Set(v);
        }
        break;
      }
      case 37: {  // the copy that the last step makes of a shared value it may not move
        fn = false;
        const Val v{10};
        auto g = [](Val const& x, u32 k) -> kit::F {
          Tok local{65};
          if (k == 1) co_return yaclib::Result<Val, Err>{x};
          local.use();
          co_return x;
        };
        failed = attempt<Fn>(mode == 0 ? 2 : mode, 1, [&](auto&&) {
          if (mode == 0) sim::fail_alloc(3);  // frame, local, copy
          kit::F x;
          try {
            x = g(v, n);
          } catch (...) {
            sim::end_fail_alloc();
            throw;
          }
          sim::end_fail_alloc();
          auto r = std::move(x).Get();
          const Out got = out(r);
          SIM_CHECK(got == value(10) || got.k == 'X', "intact", "a coroutine that returns a value got %c%d", got.k, got.id);
        });
        break;
      }
      default: {
        fn = false;
        yaclib::OneShotEvent ev;
        ev.Set();
        failed = attempt<Fn>(mode, 1, [&](auto&&) { (void)ev.WaitFor(std::chrono::nanoseconds{100}); });
        break;
      }
    }
    // (that a call allocates at all is nobody's promise)
    if (mode == 1 && fn) SIM_CHECK(failed, "swallowed", "operation %u: the exception of the functor's copy constructor is lost", op);
    if (mode == 2 || (mode == 1 && !fn)) SIM_CHECK(!failed, "failed", "operation %u failed although nothing went wrong", op);
    if (failed) {
      SIM_CHECK(!out_f && !out_fo && !out_sf, "half-done", "operation %u failed and succeeded", op);
      if (f.Valid() && op < 20) {  // an attempt that fails takes nothing
        auto r = std::move(f).Get();
        const Out want = o.k == 'D' ? stopped() : o;
        SIM_CHECK(out(r) == want, "intact", "operation %u failed, then the future delivered %c%d, expected %c%d", op, out(r).k, out(r).id, want.k, want.id);
      }
    }
    if (out_f) {
      auto x = std::move(*out_f);
      out_f.reset();
      let_go(std::move(x), env, end, th);
    }
    if (out_fo) {
      auto x = std::move(*out_fo);
      out_fo.reset();
      let_go(std::move(x), env, end, th);
    }
    out_sf.reset();
    sf = {};
    f = {};
    th.join();
    released("a failing call");
    for (auto& x : env.e) idle(*x, "a failing call");
    env.close();
    released("a failing call");
    env.ex.shutdown();
  }
  check_no_live("after a failing call");
}

sim::Workload a{"c03/failing", "C03", failing, sim::kAll, 1};
}  // namespace
