// Condition variables.
#include "wl/c18_run.hpp"

namespace c18 {
namespace {

void cv() {
  struct World {
    yaclib_std::mutex m;
    yaclib_std::condition_variable c;
    Book b{"mutex"};
    CvBook cb{b};
    int tokens = 0;
    bool closed = false;
    u32 active = 0;
  } w;
  const u32 nw = 1 + gen(3), nn = 1 + gen(2);
  w.active = nw;
  const u32 style = gen(3);  // what the waiters mostly use: plain, timed, with predicate

  auto waiter = [&w, style] {
    const u32 rounds = 1 + gen(4);
    for (u32 r = 0; r < rounds; ++r) {
      const int h = w.b.attempt(X, true);
      std::unique_lock lock{w.m};
      w.b.got(h);
      if (w.closed) {
        w.b.before_unlock(h);
        lock.unlock();
        w.b.after_unlock(h);
        break;
      }
      const u32 kind = genp(2, 3) ? style * 2 + gen(2) : gen(6);
      const ns d = timeout();
      const long long t0 = now();
      const long long dl = t0 + (long long)d.count();
      const u32 sub = gen(3);
      int evals = 0, late = 0;
      bool last = false;
      const bool hopeless = genp(1, 4);  // a predicate that only the end of the program makes true
      auto pred = [&] {
        w.b.cv_taken(h);
        if (evals++ == 0) {
          w.cb.block();
        } else {
          w.cb.back(true);
        }
        last = w.closed || (!hopeless && w.tokens > 0);
        if (now() > std::max(0ll, dl) + jitter && sub != 0 && ++late > 4) sim::fail(sim::kOracle, "timed-wait-late", "a timed wait with predicate goes on %lld ns after its deadline", now() - dl);
        sim::ev(8, last);
        w.b.cv_release(h);
        return last;
      };
      auto timed_out = [&](std::cv_status s) {
        if (s == std::cv_status::timeout) {
          sim::probe("wait_timed_out");
          if (now() < dl) sim::fail(sim::kOracle, "timed-wait-early", "a timed wait reported a timeout at %lld, its deadline is %lld", now(), dl);
        }
        sim::ev(9, s == std::cv_status::timeout);
      };
      switch (kind) {
        case 0:
        case 1:
          w.cb.block();
          w.b.cv_release(h);
          w.c.wait(lock);
          w.b.cv_taken(h);
          w.cb.back(false);
          break;
        case 2: {
          w.cb.block();
          w.b.cv_release(h);
          const auto s = w.c.wait_for(lock, d);
          w.b.cv_taken(h);
          w.cb.back(false);
          timed_out(s);
          break;
        }
        case 3: {
          w.cb.block();
          w.b.cv_release(h);
          const auto s = w.c.wait_until(lock, Clock::time_point{ns{dl}});
          w.b.cv_taken(h);
          w.cb.back(false);
          timed_out(s);
          break;
        }
        case 4:
        case 5: {
          bool r = true;
          if (sub == 0) {
            w.c.wait(lock, pred);
          } else if (sub == 1) {
            r = w.c.wait_for(lock, d, pred);
          } else {
            r = w.c.wait_until(lock, Clock::time_point{ns{dl}}, pred);
          }
          w.b.cv_taken(h);
          w.cb.back(false);
          if (r != last) sim::fail(sim::kOracle, "predicate", "a wait with predicate returned %d, the predicate is %d", int(r), int(last));
          if (!r && now() < dl) sim::fail(sim::kOracle, "timed-wait-early", "a wait with predicate gave up at %lld, its deadline is %lld", now(), dl);
          if (r && !w.closed && !hopeless) --w.tokens;
          break;
        }
        default: break;
      }
      if (!lock.owns_lock()) sim::fail(sim::kOracle, "unlocked", "a wait returned without the lock");
      w.b.before_unlock(h);
      lock.unlock();
      w.b.after_unlock(h);
      if (genp(1, 3)) yield();
    }
    --w.active;
  };
  auto notifier = [&w] {
    const u32 rounds = 1 + gen(6);
    const u32 period = gen(4) == 0 ? 0 : gen(400);
    for (u32 r = 0; r < rounds; ++r) {
      const bool all = genp(1, 3), inside = genp(1, 2), unlocked = genp(1, 5);
      if (unlocked) {
        w.cb.notify(w.c, all);
      } else {
        const int h = w.b.attempt(X, true);
        std::unique_lock lock{w.m};
        w.b.got(h);
        ++w.tokens;
        if (genp(1, 4)) nap(gen(100));
        if (inside) {
          w.cb.notify(w.c, all);
        }
        w.b.before_unlock(h);
        lock.unlock();
        w.b.after_unlock(h);
        if (!inside) {
          w.cb.notify(w.c, all);
        }
      }
      if (period == 0) {
        yield();
      } else {
        nap(period);
      }
    }
  };
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < nw; ++i) ts.emplace_back(waiter);
  for (u32 i = 0; i < nn; ++i) ts.emplace_back(notifier);
  u32 rounds = 0;
  const u32 grace = gen(4);
  while (w.active != 0) {
    nap(30000);
    if (++rounds > 60) sim::fail(sim::kProgress, "waiters-stuck", "%u waiter(s) do not end although the condition variable is notified again and again", w.active);
    const int h = w.b.attempt(X, true);
    std::unique_lock lock{w.m};
    w.b.got(h);
    w.closed = rounds > grace;
    w.cb.notify(w.c, true);
    w.b.before_unlock(h);
    lock.unlock();
    w.b.after_unlock(h);
  }
  for (auto& t : ts) t.join();
}

const sim::Workload w0{"c18/cv", "C18", run<cv>, sim::kAll, 5, 200000};

}  // namespace
}  // namespace c18
