#include "c03.hpp"

namespace c03 {

template <typename Fut>
auto plain(Fut f) {
  if constexpr (FutureTypes<Fut>::on) {
    return std::move(f).On(nullptr);
  } else {
    return f;
  }
}
struct ERef {
  yaclib::IExecutor& e;
};

template <typename Fut>
yaclib::Future<int, Err> awaits(Fut f, Tok t) {
  Tok local{1};
  int r = 0;
  try {
    Val v = co_await std::move(f);
    r = v.id();
  } catch (yaclib::ResultError<Err>&) {
  } catch (Boom&) {
  }
  local.use();
  t.use();
  co_return std::move(r);
}
template <typename Fut>
yaclib::Future<Val, Err> awaits_on(Fut f, ERef e, Tok t) {
  Tok local{1};
  co_await AwaitOn(e.e, f);
  local.use();
  t.use();
  Val v = co_await std::move(f);
  co_return std::move(v);
}

template <typename Fut>
void let_go_impl(Fut f, Env& env, u32 how, Threads& th) {
  auto& e = *env.e[sim::gen(u32(env.e.size()))];
  const u32 variant = sim::gen(4);
  auto yields = [](u32 n) {
    for (u32 i = 0; i < n; ++i) sim::yield();
  };
  switch (how) {
    case eDrop:
      sim::count(sim::kDrop);
      break;
    case eGet: {
      auto r = std::move(f).Get();
      (void)out(r);
      break;
    }
    case eDetach:
      std::move(f).Detach();
      break;
    case eDetachInline:
      std::move(f).DetachInline([t = Tok{30}, variant](R&& r) {
        t.use();
        (void)out(r);
        if (variant == 0) throw Boom{1};
      });
      break;
    case eDetachOn:
      std::move(f).Detach(e, [t = Tok{31}](Val v) {
        t.use();
        (void)v.id();
      });
      break;
    case eWaitDrop:
      Wait(f);
      if (variant == 0) (void)out(std::as_const(f).Touch());
      if (variant == 1) (void)out(*std::as_const(f).Get());
      break;
    case eTimedDrop:
      if (!WaitFor(std::chrono::nanoseconds(200 * variant), f)) sim::count(sim::kTimeout);
      sim::scribble_stack();
      break;
    case eThreadDrop:
      th.go([f = std::move(f), n = sim::gen(6)]() mutable {
        for (u32 i = 0; i < n; ++i) sim::yield();
        sim::count(sim::kDrop);
        Fut g = std::move(f);
      });
      break;
    case eConnectNobody: {
      auto [g, p] = yaclib::MakeContract<Val, Err>();
      if (variant % 2) {
        auto h = std::move(g);
      }
      Connect(std::move(f), std::move(p));
      break;
    }
    case eConnect: {
      auto [g, p] = yaclib::MakeContract<Val, Err>();
      Connect(std::move(f), std::move(p));
      yields(variant);
      if (variant % 2) {
        std::move(g).Detach(e, [t = Tok{32}](R&& r) {
          t.use();
          (void)out(r);
        });
      }
      break;
    }
    case eConnectShared: {
      auto [g, p] = yaclib::MakeSharedContract<Val, Err>();
      auto h = g;
      if (variant % 2) {
        g = {};
        h = {};
      }
      Connect(std::move(f), std::move(p));
      if (variant == 2) h.SubscribeInline([t = Tok{33}](const R& r) {
        t.use();
        (void)out(r);
      });
      break;
    }
    case eSplit: {
      auto g = Split(std::move(f));
      yields(variant);
      break;
    }
    case eSplitObserved: {
      auto g = Split(std::move(f));
      auto h = g;
      auto one = g.ThenInline([t = Tok{34}, variant](const R& r) {
        t.use();
        if (variant == 1) throw Boom{2};
        return R{r};
      });
      auto two = h.Then(e, [t = Tok{35}](Val v) {
        t.use();
        return v;
      });
      auto three = Share(h);
      th.go([h = std::move(h), n = variant]() mutable {
        for (u32 i = 0; i < n; ++i) sim::yield();
        auto k = std::move(h);
      });
      if (variant == 2) (void)std::move(two).Get();
      break;
    }
    case eCapturedDropped: {
      auto [g, p] = yaclib::MakeContract<void, Err>();
      auto h = std::move(g).Then(e, [f = std::move(f), t = Tok{36}]() mutable {
        t.use();
        return std::move(f);
      });
      if (variant % 2) {
        auto k = std::move(h);
      }
      sim::count(sim::kDrop);
      { auto q = std::move(p); }
      break;
    }
    case eReturnedDropped: {
      auto h = yaclib::Run<Err>(e, [f = std::move(f), t = Tok{37}]() mutable {
        t.use();
        return std::move(f);
      });
      yields(variant);
      break;
    }
    case eAwaited: {
      auto h = awaits(std::move(f), Tok{38});
      if (variant == 0) (void)std::move(h).Get();
      if (variant == 1) std::move(h).DetachInline([t = Tok{39}](int) { t.use(); });
      break;
    }
    case eAwaitedOn: {
      auto h = awaits_on(std::move(f), ERef{e}, Tok{40});
      if (variant == 0) (void)std::move(h).Get();
      break;
    }
    case eWhenAny: {
      auto [g, p] = yaclib::MakeContract<Val, Err>();
      std::vector<yaclib::Future<Val, Err>> v;
      v.push_back(plain(std::move(f).ThenInline([](R&& r) { return std::move(r); })));
      v.push_back(std::move(g));
      {
        auto any = variant % 2 ? WhenAny<yaclib::FailPolicy::FirstFail>(v.begin(), v.end()) : WhenAny<yaclib::FailPolicy::LastFail>(v.begin(), v.end());
        if (variant == 2) {
          { auto q = std::move(p); }
          (void)std::move(any).Get();
        }
      }
      if (p.Valid() && variant == 1) std::move(p).Set(Val{5});
      break;
    }
    case eWhenAll: {
      auto [g, p] = yaclib::MakeContract<Val, Err>();
      std::vector<yaclib::Future<Val, Err>> v;
      v.push_back(std::move(g));
      v.push_back(plain(std::move(f).ThenInline([t = Tok{41}](R&& r) {
        t.use();
        return std::move(r);
      })));
      {
        auto all = WhenAll<yaclib::FailPolicy::FirstFail>(v.begin(), v.end());
        if (variant == 1) {
          std::move(p).Set(Err{3});
          (void)std::move(all).Get();
        } else if (variant == 2) {
          std::move(all).DetachInline([t = Tok{42}](auto&&) { t.use(); });
        }
      }
      if (p.Valid() && variant == 2) std::move(p).Set(Val{5});
      break;
    }
    case eAttachDrop: {
      auto g = std::move(f).ThenInline([t = Tok{43}](R&& r) {
        t.use();
        return std::move(r);
      });
      { auto h = std::move(g); }
      yields(variant);
      break;
    }
    case eMoveAssign: {
      auto [g, p] = yaclib::MakeContract<Val, Err>();
      auto h = plain(std::move(f).ThenInline([t = Tok{44}](R&& r) {
        t.use();
        return std::move(r);
      }));
      h = std::move(g);  // releases the pipeline
      if (variant % 2) std::move(p).Set(Val{6});
      break;
    }
  }
}
}  // namespace c03
