// C17 segments: thread pools, strands, futures with timed waits, coroutines, combinators.
#include "wl/c17.hpp"

#include <yaclib/async/contract.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>

#include <yaclib_std/atomic>

namespace c17 {
namespace {

using yaclib_std::this_thread::sleep_for;

void stop(yaclib::FairThreadPool& tp, u32 how) {
  if (how == 0) {
    tp.SoftStop();
  } else if (how == 1) {
    tp.Stop();
  } else {
    tp.HardStop();
  }
  tp.Wait();
}

}  // namespace

void seg_pool(const Script& s) {
  Reader r{s, 90};
  auto tp = yaclib::MakeFairThreadPool(1 + r(4));
  std::vector<yaclib::FutureOn<int>> fs;
  const u32 n = s.k * s.len / 2 + 1;
  for (u32 i = 0; i < n; ++i) {
    auto f = yaclib::Run(*tp, [&, i] {
      Reader q{s, i};
      ev(50, i);
      if (q.p(1, 3)) yaclib_std::this_thread::yield();
      if (q.p(1, 3)) sleep_for(ns{q(500)});
      return int(q(100));
    });
    if (r.p(1, 2)) {
      fs.push_back(std::move(f).Then([i](int v) {
        ev(51, i, u64(v));
        return v + 1;
      }));
    } else {
      fs.push_back(std::move(f));
    }
  }
  if (r.p(1, 2)) sleep_for(ns{r(400)});
  const u32 how = r(4);
  if (how < 3) stop(*tp, how);
  for (auto& f : fs) {
    auto v = std::move(f).Get();
    ev(52, u64(v.State()), v ? u64(std::as_const(v).Value()) : 0);
  }
  if (how == 3) stop(*tp, 0);
}

void seg_strand(const Script& s) {
  Reader r{s, 91};
  auto tp = yaclib::MakeFairThreadPool(1 + r(3));
  auto strand = yaclib::MakeStrand(tp);
  yaclib_std::atomic<u32> left{s.k * s.len};
  u64 order = 0;
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < s.k; ++i) {
    ts.emplace_back([&, i] {
      for (u32 j = 0; j < s.len; ++j) {
        Submit(*strand, [&, i, j] {
          Reader q{s, i + 10 * j};
          ev(55, i, j);
          order = order * 7 + i;
          if (q.p(1, 4)) yaclib_std::this_thread::yield();
          left.fetch_sub(1);
        });
      }
    });
  }
  for (auto& t : ts) t.join();
  while (left.load() != 0) sleep_for(ns{200});
  ev(56, order);
  stop(*tp, 0);
}

void seg_wait(const Script& s) {
  Reader r{s, 92};
  std::vector<yaclib::Future<int>> fs;
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < s.k; ++i) {
    auto [f, p] = yaclib::MakeContract<int>();
    fs.push_back(std::move(f));
    ts.emplace_back([&, i, p = std::move(p)]() mutable {
      Reader q{s, i};
      sleep_for(ns{100 * q(12)});
      ev(60, i);
      if (q.p(1, 6)) {
        [[maybe_unused]] auto drop = std::move(p);
      } else {
        std::move(p).Set(int(q(100)));
      }
    });
  }
  for (u32 j = 0; j < s.len; ++j) {
    const ns d{100 * r(10)};
    const bool all = r.p(1, 2) ? yaclib::WaitFor(d, fs.begin(), fs.end()) : yaclib::WaitUntil(yaclib_std::chrono::steady_clock::now() + d, fs.begin(), fs.end());
    ev(61, all);
  }
  yaclib::Wait(fs.begin(), fs.end());
  for (auto& f : fs) {
    const auto v = std::move(f).Get();
    ev(62, u64(v.State()), v ? u64(std::as_const(v).Value()) : 0);
  }
  for (auto& t : ts) t.join();
}

void seg_coro(const Script& s) {
  Reader r{s, 93};
  auto tp = yaclib::MakeFairThreadPool(1 + r(3));
  yaclib::Mutex<> m;
  yaclib::SharedMutex<> sm;
  u64 order = 0;
  auto leaf = [&](u32 i) -> yaclib::Task<int> {
    co_await On(*tp);
    ev(70, i);
    co_await yaclib::kYield;
    co_return int(i);
  };
  auto body = [&](u32 i) -> yaclib::Future<int> {
    Reader q{s, i};
    co_await On(*tp);
    for (u32 j = 0; j < s.len; ++j) {
      switch (q(5)) {
        case 0: {
          auto g = co_await m.Guard();
          ev(71, order = order * 5 + i);
          if (q.p(1, 2)) yaclib_std::this_thread::yield();
          break;
        }
        case 1: {
          co_await m.Lock();
          ev(72, order = order * 5 + i);
          if (q.p(1, 2)) {
            co_await m.Unlock();
          } else {
            m.UnlockHere();
          }
          break;
        }
        case 2: {
          auto g = co_await sm.GuardShared();
          ev(73, order);
          break;
        }
        case 3: {
          auto g = co_await sm.Guard();
          ev(74, order = order * 5 + i);
          break;
        }
        default: ev(75, u64(co_await leaf(i))); break;
      }
    }
    ev(76, i);
    co_return int(i);
  };
  std::vector<yaclib::Future<int>> fs;
  for (u32 i = 0; i <= s.k; ++i) fs.push_back(body(i));
  yaclib::Wait(fs.begin(), fs.end());
  stop(*tp, 0);
}

void seg_comb(const Script& s) {
  Reader r{s, 94};
  auto tp = yaclib::MakeFairThreadPool(1 + r(3));
  for (u32 j = 0; j < s.len; ++j) {
    std::vector<yaclib::FutureOn<int>> fs;
    for (u32 i = 0; i <= s.k; ++i) {
      fs.push_back(yaclib::Run(*tp, [&, i, j] {
        Reader q{s, i + 5 * j};
        if (q.p(1, 2)) yaclib_std::this_thread::yield();
        if (q.p(1, 3)) sleep_for(ns{100 * q(3)});
        ev(80, i, j);
        return int(i);
      }));
    }
    if (r.p(1, 2)) {
      ev(81, u64(yaclib::WhenAny(fs.begin(), fs.end()).Get().Ok()));
    } else {
      const auto v = yaclib::WhenAll(fs.begin(), fs.end()).Get().Ok();
      ev(82, v.size());
    }
  }
  stop(*tp, 0);
}

}  // namespace c17
