// C17 segments: threads, atomics, locks, timed waits.
#include "wl/c17.hpp"

#include <condition_variable>
#include <mutex>
#include <shared_mutex>

#include <yaclib_std/atomic>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

namespace c17 {
namespace {

using yaclib_std::this_thread::sleep_for;
using Clock = yaclib_std::chrono::steady_clock;

template <typename F>
void threads(u32 k, F&& f) {
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) ts.emplace_back([&f, i] { f(i); });
  for (auto& t : ts) t.join();
}

const long kTimes[] = {0, 1, 100, 100, 333, 1000, 1000, 5000};

YACLIB_THREAD_LOCAL_PTR(int) tls;
int tls_targets[8];

}  // namespace

void seg_atomics(const Script& s) {
  yaclib_std::atomic<u32> x{0}, y{0};
  yaclib_std::atomic_flag flag;
  flag.clear();
  threads(s.k, [&](u32 i) {
    Reader r{s, i};
    for (u32 j = 0; j < s.len; ++j) {
      switch (r(6)) {
        case 0: ev(1, x.fetch_add(1 + r(3))); break;
        case 1: {
          u32 e = x.load(), n = 0;
          while (!x.compare_exchange_weak(e, e * 3 + 1)) ++n;
          ev(2, e, n);
          break;
        }
        case 2: {
          u32 e = 0;
          const bool ok = y.compare_exchange_strong(e, i + 1);
          ev(3, ok, e);
          if (ok) y.store(0);
          break;
        }
        case 3:
          ev(4, flag.test_and_set());
          flag.clear();
          break;
        case 4: ev(5, x.exchange(r(100)), y.load()); break;
        default: yaclib_std::this_thread::yield(); break;
      }
    }
  });
  ev(6, x.load(), y.load());
}

void seg_locks(const Script& s) {
  yaclib_std::mutex m;
  yaclib_std::recursive_mutex rm;
  yaclib_std::shared_mutex sm;
  u64 order = 0;
  threads(s.k + 1, [&](u32 i) {
    Reader r{s, i};
    for (u32 j = 0; j < s.len; ++j) {
      switch (r(6)) {
        case 0: {
          std::lock_guard g{m};
          ev(10, order = order * 5 + i);
          if (r.p(1, 2)) yaclib_std::this_thread::yield();
          break;
        }
        case 1:
          if (m.try_lock()) {
            ev(11, i);
            sleep_for(ns{r(50)});
            m.unlock();
          } else {
            ev(12, i);
          }
          break;
        case 2: {
          std::shared_lock g{sm};
          ev(13, order);
          if (r.p(1, 2)) yaclib_std::this_thread::yield();
          break;
        }
        case 3: {
          std::unique_lock g{sm};
          ev(14, order = order * 5 + i);
          if (r.p(1, 2)) sleep_for(ns{r(200)});
          break;
        }
        case 4: {
          std::lock_guard g{rm};
          std::lock_guard g2{rm};
          ev(15, order = order * 5 + i);
          if (r.p(1, 2)) yaclib_std::this_thread::yield();
          break;
        }
        default:
          std::lock(m, rm);
          ev(16, order = order * 5 + i);
          m.unlock();
          rm.unlock();
          break;
      }
    }
  });
}

void seg_timed(const Script& s) {
  yaclib_std::timed_mutex m;
  yaclib_std::recursive_timed_mutex rm;
  yaclib_std::shared_timed_mutex sm;
  threads(s.k + 1, [&](u32 i) {
    Reader r{s, i};
    for (u32 j = 0; j < s.len; ++j) {
      const ns d{kTimes[r(8)]};
      switch (r(6)) {
        case 0:
          sleep_for(d);
          ev(20, 0);
          break;
        case 1: {
          const auto tp = Clock::now() + d;
          yaclib_std::this_thread::sleep_until(tp);
          ev(21, u64((Clock::now() - tp).count()));
          break;
        }
        case 2: {
          const bool ok = m.try_lock_for(d);
          ev(22, ok);
          if (ok) {
            sleep_for(ns{kTimes[r(8)]});
            m.unlock();
          }
          break;
        }
        case 3: {
          const bool ok = rm.try_lock_until(Clock::now() + d);
          ev(23, ok);
          if (ok) {
            yaclib_std::this_thread::yield();
            rm.unlock();
          }
          break;
        }
        case 4: {
          const bool ok = sm.try_lock_for(d);
          ev(24, ok);
          if (ok) {
            sleep_for(ns{kTimes[r(8)]});
            sm.unlock();
          }
          break;
        }
        default: {
          const bool ok = sm.try_lock_shared_for(d);
          ev(25, ok);
          if (ok) {
            sleep_for(ns{kTimes[r(8)]});
            sm.unlock_shared();
          }
          break;
        }
      }
    }
  });
}

void seg_cv(const Script& s) {
  yaclib_std::mutex m;
  yaclib_std::condition_variable c;
  u32 tokens = 0, done = 0;
  const u32 k = s.k + 1;
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) {
    ts.emplace_back([&, i] {
      Reader r{s, i};
      for (u32 j = 0; j < s.len; ++j) {
        std::unique_lock l{m};
        const ns d{kTimes[r(8)]};
        switch (r(3)) {
          case 0: ev(30, c.wait_for(l, d) == std::cv_status::timeout); break;
          case 1: ev(31, c.wait_for(l, d, [&] { return tokens != 0; })); break;
          default:
            c.wait(l, [&] { return tokens != 0 || done == 1000; });
            ev(32, i);
            break;
        }
        if (tokens != 0) --tokens;
        if (r.p(1, 2)) {
          ++tokens;
          c.notify_one();
        }
      }
      std::lock_guard l{m};
      ++done;
    });
  }
  for (u32 n = 0;; ++n) {
    sleep_for(ns{500});
    std::lock_guard l{m};
    if (done % 1000 == k || done >= 1000) break;
    if (n > 20) ++tokens;
    if (n % 2 != 0) {
      c.notify_all();
    } else {
      c.notify_one();
    }
  }
  for (auto& t : ts) t.join();
  ev(33, tokens);
}

void seg_misc(const Script& s) {
  // random values, detached fibers, nested fibers, fiber-local pointers
  yaclib_std::atomic<u32> left{s.k};
  for (u32 i = 0; i < s.k; ++i) {
    yaclib_std::thread t{[&, i] {
      Reader r{s, i};
      yaclib_std::random::random_device rd;
      tls = &tls_targets[i % 8];
      for (u32 j = 0; j < s.len; ++j) {
        switch (r(4)) {
          case 0: ev(40, rd()); break;
          case 1: {
            yaclib_std::thread inner{[&] {
              ev(41, tls.Get() == nullptr);
              sleep_for(ns{r(300)});
            }};
            inner.join();
            break;
          }
          case 2: sleep_for(ns{kTimes[r(8)]}); break;
          default: ev(42, u64(tls.Get() - tls_targets)); break;
        }
      }
      ev(43, i);
      left.fetch_sub(1);
    }};
    t.detach();
  }
  while (left.load() != 0) sleep_for(ns{100});
  for (int i = 0; i < 3; ++i) sleep_for(ns{1000});  // the detached ones end
  ev(44, 0);
}

}  // namespace c17
