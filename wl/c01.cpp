// C01: a fulfilled Promise is delivered to its Future exactly once, intact.
#include "consume.hpp"

#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_promise.hpp>

namespace {
using namespace kit;

template <typename V, typename E>
void one(int source) {
  Execs ex;
  const int mode = int(sim::gen(mModes));
  const u32 form = sim::gen(6);
  Out o = random_out(source < 2 || source == 4);
  const u32 way = sim::genp(1, 3) ? sim::gen(6) : 0;
  auto e = ex.random(kLiveKinds);
  Slots slots{1};
  HostInt started{0};
  int written = 0;
  const bool exec_src = source == 2 || source == 3;
  Watch w{&slots, 0, &started, nullptr};
  if (!exec_src && !sim::genp(1, 3)) w.written = &written;  // also checks happens-before through the race detector
  const bool main_consumes = sim::genp(1, 2);
  {
    Threads th;
    auto run = [&](auto f, auto produce) {
      using F = decltype(f);
      if (main_consumes) {
        th.go(std::move(produce));
        pause(3);
        if (sim::genp(1, 4)) th.join();  // the late consumer
        consume<F>(std::move(f), mode, w, *e);
      } else {
        th.go([&, f = std::move(f)]() mutable {
          pause(3);
          if (sim::genp(1, 4)) {
            F g;
            g = std::move(f);
            SIM_CHECK(!f.Valid(), "valid", "a moved-from future is Valid");
            f = std::move(g);
          }
          consume<F>(std::move(f), mode, w, *e);
        });
        produce();
      }
      th.join();
    };
    auto set = [&](auto p) {
      pause(3);
      written = 1;
      started.set(1);
      hand_over<decltype(p), V, E>(std::move(p), o, form, way);
    };
    [[maybe_unused]] auto set_shared = [&](auto p) {
      pause(3);
      written = 1;
      started.set(1);
      fulfil<decltype(p), V, E>(std::move(p), o, form);
    };
    switch (source) {
      case 0: {
        auto [f, p] = yaclib::MakeContract<V, E>();
        auto produce = [&set, p = std::move(p)]() mutable { set(std::move(p)); };
        run(std::move(f), std::move(produce));
        break;
      }
      case 1: {
        auto eb = ex.random(kLiveKinds);
        auto [f, p] = yaclib::MakeContractOn<V, E>(*eb);
        auto produce = [&set, p = std::move(p)]() mutable { set(std::move(p)); };
        run(std::move(f), std::move(produce));
        break;
      }
      case 2: {
        auto eb = ex.random(kLiveKinds);
        auto f = yaclib::Run<E>(*eb, [&, t = Tok{9}]() -> yaclib::Result<V, E> {
          t.use();
          started.set(1);
          if (o.k == 'X' && form % 2 == 0) {
            sim::count(sim::kThrow);
            throw Boom{o.id};
          }
          return make_result<V, E>(o);
        });
        run(std::move(f), [] {});
        break;
      }
      case 3: {
        auto eb = ex.random(kLiveKinds);
        auto f = yaclib::AsyncContract<V, E>(*eb, [&, t = Tok{9}](yaclib::Promise<V, E> p) {
          t.use();
          started.set(1);
          hand_over<yaclib::Promise<V, E>, V, E>(std::move(p), o, form, way);
        });
        run(std::move(f), [] {});
        break;
      }
      case 4: {  // fulfilled by Connect: with a future or a shared future that completes meanwhile, or from a shared promise
        auto [f, p] = yaclib::MakeContract<V, E>();
        const u32 from = sim::gen(std::is_copy_constructible_v<yaclib::Result<V, E>> ? 4 : 1);
        run(std::move(f), [&, p = std::move(p)]() mutable {
          Threads up;
          if (from == 0) {
            auto [fu, pu] = yaclib::MakeContract<V, E>();
            up.go([&set, pu = std::move(pu)]() mutable { set(std::move(pu)); });
            pause(3);
            Connect(std::move(fu), std::move(p));
            SIM_CHECK(!fu.Valid() && !p.Valid(), "valid", "a future or a promise is Valid after Connect");
            up.join();
          } else if constexpr (std::is_copy_constructible_v<yaclib::Result<V, E>>) {
            auto [fu, pu] = yaclib::MakeSharedContract<V, E>();
            if (from == 3) {
              Connect(pu, std::move(p));
              if (sim::genp(1, 2)) fu = {};
              set_shared(std::move(pu));
            } else {
              up.go([&set_shared, pu = std::move(pu)]() mutable { set_shared(std::move(pu)); });
              pause(3);
              if (from == 2) {  // not alone: the list of callbacks has another one
                auto [fs, ps] = yaclib::MakeContract<V, E>();
                Connect(fu, std::move(ps));
                Connect(fu, std::move(p));
                auto r = std::move(fs).Get();
                SIM_CHECK(out(r) == (expected<V, E>(o)), "intact", "the other connected future got %c%d", out(r).k, out(r).id);
              } else {
                Connect(fu, std::move(p));
              }
              if (sim::genp(1, 2)) fu = {};
              up.join();
            }
            SIM_CHECK(!p.Valid(), "valid", "a promise is Valid after Connect");
          }
        });
        break;
      }
    }
  }
  ex.shutdown();
  const Out want = expected<V, E>(o);
  if (mode < mModesObserved) {
    SIM_CHECK(slots.count(0) == 1, "exactly-once", "mode %s: the result was delivered %d times", mode_name(mode), slots.count(0));
    SIM_CHECK(slots.last(0) == want, "intact", "mode %s: set %c%d but observed %c%d", mode_name(mode), want.k, want.id, slots.last(0).k, slots.last(0).id);
  } else {
    SIM_CHECK(slots.count(0) == 0, "dropped", "something ran although the future was dropped");
  }
}

void contract() {
  switch (sim::gen(4)) {
    case 0:
      return one<Val, Err>(0);
    case 1:
      return one<void, yaclib::StopError>(0);
    case 2:
      return one<int, yaclib::StopError>(0);
    default:
      return one<MVal, Err>(0);
  }
}
void contract_on() {
  if (sim::gen(2)) return one<void, Err>(1);
  one<Val, Err>(1);
}
void run() { one<Val, Err>(2); }
void async_contract() { one<Val, Err>(3); }
void connect() {
  switch (sim::gen(3)) {
    case 0:
      return one<void, yaclib::StopError>(4);
    case 1:
      return one<MVal, Err>(4);
    default:
      return one<Val, Err>(4);
  }
}

// Pairs passing each other: the consumer of one pair produces the other one.
void cross() {
  Slots slots{2};
  HostInt st0{0}, st1{0};
  int w0 = 0, w1 = 0;
  Execs ex;
  auto e = ex.random(kLiveKinds);
  const Out o0 = random_out(true), o1 = random_out(true);
  const int m0 = int(sim::gen(mModesObserved)), m1 = int(sim::gen(mModesObserved));
  {
    auto [f0, p0] = yaclib::MakeContract<Val, Err>();
    auto [f1, p1] = yaclib::MakeContract<Val, Err>();
    Threads th;
    th.go([&, f0 = std::move(f0), p1 = std::move(p1)]() mutable {
      const bool first = sim::genp(1, 2) || true;
      (void)first;
      pause(2);
      w1 = 1;
      st1.set(1);
      fulfil<yaclib::Promise<Val, Err>, Val, Err>(std::move(p1), o1, 0);
      consume<yaclib::Future<Val, Err>>(std::move(f0), m0, Watch{&slots, 0, &st0, &w0}, *e);
    });
    pause(2);
    w0 = 1;
    st0.set(1);
    fulfil<yaclib::Promise<Val, Err>, Val, Err>(std::move(p0), o0, 1);
    consume<yaclib::Future<Val, Err>>(std::move(f1), m1, Watch{&slots, 1, &st1, &w1}, *e);
  }
  ex.shutdown();
  for (int i = 0; i < 2; ++i) {
    const Out want = expected<Val, Err>(i ? o1 : o0);
    SIM_CHECK(slots.count(i) == 1, "exactly-once", "the result was delivered %d times", slots.count(i));
    SIM_CHECK(slots.last(i) == want, "intact", "set %c%d but observed %c%d", want.k, want.id, slots.last(i).k, slots.last(i).id);
  }
}

// A callback can run inside Set or DetachInline: the promise or future they were called on has given up its state by then, so the callback
// can destroy it or give it another state.
template <typename V, typename E, typename Make, typename Attach>
void inside_one(Make&& make, Attach&& attach) {
  auto [f1, p1] = make();
  auto [f2, p2] = make();
  struct Holder {
    decltype(p1) p;
    decltype(f1) f;
  };
  const Out o = random_out(true), o2 = random_out(true);
  const u32 what = sim::gen(4);
  const bool ready = sim::genp(1, 2);  // the callback runs in DetachInline, not in Set
  Slots slots{2};
  auto* h = new Holder{std::move(p1), std::move(f1)};
  auto callback = [&, h, t = Tok{51}](auto&& r) {
    t.use();
    slots.see(0, out(r));
    if (ready) {
      if (what == 0) {
        delete h;
      } else if (what == 1) {
        h->f = std::move(f2);
      }
    } else {
      SIM_CHECK(!h->p.Valid(), "valid", "a promise is Valid in the callback that its Set called");
      if (what == 0) {
        delete h;
      } else if (what == 1) {
        h->p = std::move(p2);
      }
    }
  };
  Threads th;
  if (!ready) attach(h->f, std::move(callback));
  th.go([&, h] { std::move(h->p).Set(make_result<V, E>(o)); });
  th.join();
  if (ready) attach(h->f, std::move(callback));
  const Out want = expected<V, E>(o), want2 = expected<V, E>(o2);
  SIM_CHECK(slots.count(0) == 1, "exactly-once", "the result was delivered %d times", slots.count(0));
  SIM_CHECK(slots.last(0) == want, "intact", "set %c%d but observed %c%d", want.k, want.id, slots.last(0).k, slots.last(0).id);
  if (what == 1) {
    SIM_CHECK(ready ? h->f.Valid() : h->p.Valid(), "valid", "what the callback assigned is not Valid");
    std::move(ready ? p2 : h->p).Set(make_result<V, E>(o2));
    SIM_CHECK((ready ? h->f : f2).Ready(), "ready", "not Ready after Set");
    const Out got = out(std::move(ready ? h->f : f2).Get());
    SIM_CHECK(got == want2, "intact", "the other state: set %c%d but observed %c%d", want2.k, want2.id, got.k, got.id);
  } else {
    SIM_CHECK(f2.Valid() && !f2.Ready(), "ready", "the other state is Ready");
  }
  if (what != 0) delete h;
}
template <typename V, typename E>
void inside_unique() {
  inside_one<V, E>([] { return yaclib::MakeContract<V, E>(); }, [](auto& f, auto&& callback) { std::move(f).DetachInline(std::forward<decltype(callback)>(callback)); });
}
void inside() {
  switch (sim::gen(4)) {
    case 0:
      return inside_unique<void, yaclib::StopError>();
    case 1:
      return inside_unique<MVal, Err>();
    case 2:
      return inside_unique<Val, Err>();
    default:
      return inside_one<Val, Err>([] { return yaclib::MakeSharedContract<Val, Err>(); },
                                  [](auto& f, auto&& callback) { std::exchange(f, {}).SubscribeInline(std::forward<decltype(callback)>(callback)); });
  }
}
sim::Workload a{"c01/contract", "C01", contract, sim::kAllButLeak, 6};
sim::Workload b{"c01/contract_on", "C01", contract_on, sim::kAllButLeak, 2};
sim::Workload c{"c01/run", "C01", run, sim::kAllButLeak, 1};
sim::Workload d{"c01/async_contract", "C01", async_contract, sim::kAllButLeak, 1};
sim::Workload g{"c01/connect", "C01", connect, sim::kAllButLeak, 2};
sim::Workload h{"c01/inside", "C01", inside, sim::kAllButLeak, 1};
sim::Workload f{"c01/cross", "C01", cross, sim::kAllButLeak, 1};
}  // namespace
