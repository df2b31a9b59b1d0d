// Locks: every fiber runs a generated script of acquisitions on one or two locks.
#include "wl/c18_run.hpp"

namespace c18 {
namespace {

template <typename M>
constexpr bool kTimed = requires(M& m) { m.try_lock_for(ns{1}); };
template <typename M>
constexpr bool kShared = requires(M& m) { m.lock_shared(); };
template <typename M>
constexpr bool kRecursive = std::is_same_v<M, yaclib_std::recursive_mutex> || std::is_same_v<M, yaclib_std::recursive_timed_mutex>;

template <typename M>
struct Lock {
  M m;
  Book b;
  int acquired = 0;
  explicit Lock(const char* n) : b{n} {}

  enum How { kLock, kTry, kFor, kUntil };

  bool take(Mode mode, How how, ns d) {
    if constexpr (kShared<M>) {
      if (mode == S) {
        switch (how) {
          case kLock: m.lock_shared(); return true;
          case kTry: return m.try_lock_shared();
          default:
            if constexpr (kTimed<M>) return how == kFor ? m.try_lock_shared_for(d) : m.try_lock_shared_until(Clock::now() + d);
        }
      }
    }
    switch (how) {
      case kLock: m.lock(); return true;
      case kTry: return m.try_lock();
      default:
        if constexpr (kTimed<M>) return how == kFor ? m.try_lock_for(d) : m.try_lock_until(Clock::now() + d);
    }
    return false;
  }
  How how() {
    static const How timed[] = {kLock, kTry, kFor, kUntil};
    return kTimed<M> ? timed[gen(4)] : timed[gen(2)];
  }
  Mode mode() { return kShared<M> && genp(1, 2) ? S : X; }

  void round(Lock* inner) {
    const Mode md = mode();
    const How hw = how();
    const ns d = timeout();
    const long long t0 = now();
    const int h = b.attempt(md, hw != kTry);
    const bool r = take(md, hw, d);
    if (!r) {
      sim::log("%s: not acquired", b.name());
      b.failed(h, hw == kTry ? -1 : std::max(0ll, t0 + (long long)d.count()));
      if (hw != kTry) sim::probe("timed_lock_expired");
      return;
    }
    b.got(h);
    ++acquired;
    if (hw != kTry && hw != kLock && now() > t0 + 2 * (long long)tick) sim::probe("timed_lock_acquired_after_a_wait");
    hold(inner, kRecursive<M> ? 2 : 0);
    b.before_unlock(h);
    unlock(md);
    b.after_unlock(h);
  }
  void hold(Lock* inner, int depth) {
    const u32 n = gen(3);
    for (u32 i = 0; i < n; ++i) {
      switch (gen(4)) {
        case 0: yield(); break;
        case 1: nap(gen(60)); break;
        case 2: nap(1000 * gen(8)); break;
        default:
          if (inner != nullptr) {
            inner->round(nullptr);
          } else if (depth > 0) {  // recursive
            const How hw = how();
            const ns d = timeout();
            const auto t0 = now();
            if (!take(X, hw, d)) sim::fail(sim::kOracle, "owner-refused", "%s: the owner of a recursive mutex could not lock it again", b.name());
            if (exact && now() != t0) sim::fail(sim::kOracle, "owner-waited", "%s: the owner of a recursive mutex had to wait", b.name());
            hold(nullptr, depth - 1);
            unlock(X);
            sim::probe("recursive_lock");
          }
          break;
      }
    }
  }
  void unlock(Mode md) {
    if constexpr (kShared<M>) {
      if (md == S) {
        m.unlock_shared();
        return;
      }
    }
    m.unlock();
  }
};

template <typename M>
void locks(const char* name) {
  const u32 n = 1 + gen(2);
  Lock<M> a{name}, c{name};
  const u32 k = 2 + gen(3);
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) {
    ts.emplace_back([&] {
      fk::self();
      const u32 rounds = 1 + gen(5);
      for (u32 r = 0; r < rounds; ++r) {
        if (n == 1) {
          a.round(nullptr);
        } else if (genp(1, 2)) {
          a.round(&c);
        } else {
          c.round(nullptr);
        }
        switch (gen(4)) {
          case 0: yield(); break;
          case 1: nap(gen(60)); break;
          case 2: nap(1000 * gen(8)); break;
          default: break;
        }
      }
    });
  }
  for (auto& t : ts) t.join();
  // everybody is gone: the lock must be free in every mode
  for (Lock<M>* l : {&a, &c}) {
    const int h = l->b.attempt(X, false);
    if (!l->m.try_lock()) l->b.failed(h, -1);
    l->b.got(h);
    l->b.before_unlock(h);
    l->m.unlock();
    l->b.after_unlock(h);
  }
}

// several locks at once
void scoped() {
  struct L {
    yaclib_std::mutex m;
    Book b{"mutex"};
  };
  L l[3];
  const u32 k = 2 + gen(3);
  std::vector<u32> groups[4];
  idle_extra = [&] {
    for (const auto& g : groups) {
      bool held = g.empty();
      for (u32 j : g) held |= l[j].b.held();
      if (!held) sim::fail(sim::kOracle, "blocked-though-free", "mutex: nothing can run, all the locks are free, a fiber still waits in std::lock");
    }
  };
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) {
    ts.emplace_back([&, i] {
      const u32 rounds = 1 + gen(4);
      for (u32 r = 0; r < rounds; ++r) {
        u32 o[3] = {0, 1, 2};
        std::swap(o[0], o[gen(3)]);
        std::swap(o[1], o[1 + gen(2)]);
        const u32 n = 2 + gen(2);
        int h[3];
        // blocked on one of them, which one is not known: the check at idle is below
        for (u32 j = 0; j < n; ++j) h[j] = l[o[j]].b.attempt(X, false);
        groups[i] = {o[0], o[1], n == 3 ? o[2] : o[0]};
        if (n == 2) {
          std::lock(l[o[0]].m, l[o[1]].m);
        } else {
          std::lock(l[o[0]].m, l[o[1]].m, l[o[2]].m);
        }
        groups[i].clear();
        for (u32 j = 0; j < n; ++j) l[o[j]].b.got(h[j]);
        if (genp(1, 2)) yield();
        if (genp(1, 3)) nap(gen(500));
        for (u32 j = 0; j < n; ++j) {
          l[o[j]].b.before_unlock(h[j]);
          l[o[j]].m.unlock();
          l[o[j]].b.after_unlock(h[j]);
        }
        if (genp(1, 2)) yield();
      }
    });
  }
  for (auto& t : ts) t.join();
}

void mutex() { locks<yaclib_std::mutex>("mutex"); }
void timed() { locks<yaclib_std::timed_mutex>("timed_mutex"); }
void recursive() { locks<yaclib_std::recursive_mutex>("recursive_mutex"); }
void recursive_timed() { locks<yaclib_std::recursive_timed_mutex>("recursive_timed_mutex"); }
void shared() { locks<yaclib_std::shared_mutex>("shared_mutex"); }
void shared_timed() { locks<yaclib_std::shared_timed_mutex>("shared_timed_mutex"); }

const sim::Workload w0{"c18/mutex", "C18", run<mutex>, sim::kAll, 2, 200000};
const sim::Workload w1{"c18/timed", "C18", run<timed>, sim::kAll, 3, 200000};
const sim::Workload w2{"c18/recursive", "C18", run<recursive>, sim::kAll, 2, 200000};
const sim::Workload w3{"c18/recursive_timed", "C18", run<recursive_timed>, sim::kAll, 3, 200000};
const sim::Workload w4{"c18/shared", "C18", run<shared>, sim::kAll, 3, 200000};
const sim::Workload w5{"c18/shared_timed", "C18", run<shared_timed>, sim::kAll, 4, 200000};
const sim::Workload w6{"c18/scoped", "C18", run<scoped>, sim::kAll, 1, 200000};

}  // namespace
}  // namespace c18
