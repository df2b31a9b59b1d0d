// Shared futures and mixtures: several threads wait for overlapping sets.
#include "c11.hpp"

namespace {
using namespace c11;

void shared() {
  Producers<SP> pr{int(amount(4, kMax))};
  const int n = pr.n;
  const int waiters = 1 + int(sim::gen(3));
  struct Plan {
    int form, a, b, c, delay;
  } plan[3];
  for (int w = 0; w < waiters; ++w) plan[w] = {int(sim::gen(7)), int(sim::gen(u32(n))), int(sim::gen(u32(n))), int(sim::gen(u32(n))), int(sim::gen(4))};
  Slots slots{kMax};
  {
    std::vector<SF> fs;
    for (int i = 0; i < n; ++i) {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      fs.push_back(std::move(f));
      pr.p[i].emplace(std::move(p));
    }
    pr.before();
    Threads th;
    for (int w = 0; w < waiters; ++w) {
      th.go([&, w, mine = fs]() mutable {
        const Plan& q = plan[w];
        for (int i = 0; i < q.delay; ++i) sim::yield();
        bool need[kMax] = {};
        // every waiter works on its own copies; the same state may be listed twice
        SF x = mine[std::size_t(q.a)], y = mine[std::size_t(q.b)], z = mine[std::size_t(q.c)];
        const SF& cx = x;
        switch (q.form) {
          case 0:
            Wait(cx);
            need[q.a] = true;
            break;
          case 1:
            Wait(x, y);
            need[q.a] = need[q.b] = true;
            break;
          case 2:
            Wait(z, cx, y);
            need[q.a] = need[q.b] = need[q.c] = true;
            break;
          case 3:
            Wait(mine.begin(), mine.end());
            for (int i = 0; i < n; ++i) need[i] = true;
            break;
          case 4:
            Wait(mine.cbegin(), mine.size());
            for (int i = 0; i < n; ++i) need[i] = true;
            break;
          case 5: {
            std::vector<SF> v{x, y, x};
            if (const Backwards<const SF> r{std::as_const(v)}; sim::genp(1, 2)) {
              Wait(r.begin(), r.end());
            } else {
              Wait(v.begin(), v.end());
            }
            need[q.a] = need[q.b] = true;
            break;
          }
          default:
            Wait(x);
            Wait(y, x);
            need[q.a] = need[q.b] = true;
            break;
        }
        sim::scribble_stack();
        for (int i = 0; i < n; ++i) {
          if (!need[i]) continue;
          check_ready(mine[std::size_t(i)], "Wait", i);
          SIM_CHECK(pr.started[i].get(), "early", "Wait returned before shared future %d was fulfilled", i);
          SIM_CHECK(pr.written[i] == 1, "lost-write", "a write made before fulfilment is not visible after the wait");
          SIM_CHECK(out(std::as_const(mine[std::size_t(i)]).Touch()) == (expected<Val, Err>(pr.o[i])), "intact", "wrong value after Wait");
        }
      });
    }
    pr.go(th);
    for (int i = 0; i < n; ++i) {
      Watch w{&slots, i, &pr.started[i], &pr.written[i]};
      w(out(std::as_const(fs[std::size_t(i)]).Get()));
    }
  }
  int mode[kMax] = {};
  judge(pr, mode, slots);
  check_no_live("after waiting");
}

// unique and shared futures in one call
void mixed() {
  Execs ex;
  auto e = ex.random(kLiveKinds);
  Producers<P> up{2};
  Producers<SP> sp{2};
  int mode[kMax] = {};
  for (int i = 0; i < 2; ++i) mode[i] = int(sim::gen(mModes));
  Slots us{kMax}, ss{kMax};
  const u32 form = sim::gen(5);
  {
    std::vector<F> fs;
    std::vector<SF> gs;
    for (int i = 0; i < 2; ++i) {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      fs.push_back(std::move(f));
      up.p[i].emplace(std::move(p));
      auto [g, q] = yaclib::MakeSharedContract<Val, Err>();
      gs.push_back(std::move(g));
      sp.p[i].emplace(std::move(q));
    }
    up.before();
    sp.before();
    Threads th;
    up.go(th);
    sp.go(th);
    bool uu[2] = {}, su[2] = {};
    switch (form) {
      case 0:
        Wait(fs[0], gs[0]);
        uu[0] = su[0] = true;
        break;
      case 1:
        Wait(gs[1], fs[1], gs[0]);
        uu[1] = su[0] = su[1] = true;
        break;
      case 2:
        Wait(fs[0], gs[0], fs[1], gs[1]);
        uu[0] = uu[1] = su[0] = su[1] = true;
        break;
      case 3:
        Wait(gs[0], fs[0], fs[1]);
        uu[0] = uu[1] = su[0] = true;
        break;
      default:
        Wait(gs[0], gs[0], fs[1]);
        uu[1] = su[0] = true;
        break;
    }
    sim::scribble_stack();
    for (int i = 0; i < 2; ++i) {
      if (uu[i]) {
        check_ready(fs[std::size_t(i)], "Wait", i);
        SIM_CHECK(up.started[i].get() && up.written[i] == 1, "early", "Wait returned before future %d was fulfilled", i);
      }
      if (su[i]) {
        check_ready(gs[std::size_t(i)], "Wait", i);
        SIM_CHECK(sp.started[i].get() && sp.written[i] == 1, "early", "Wait returned before shared future %d was fulfilled", i);
      }
    }
    deliver_all(fs, up, mode, us, *e);
    for (int i = 0; i < 2; ++i) {
      Watch w{&ss, i, &sp.started[i], &sp.written[i]};
      w(out(std::move(gs[std::size_t(i)]).Get()));
    }
    gs.clear();
    fs.clear();
  }
  e = nullptr;
  ex.shutdown();
  judge(up, mode, us);
  int m2[kMax] = {};
  judge(sp, m2, ss);
  check_no_live("after waiting");
}

sim::Workload a{"c11/shared", "C11", shared, sim::kAll, 3};
sim::Workload b{"c11/mixed", "C11", mixed, sim::kAll, 3};
}  // namespace
