// Threads, sleeping, thread-local pointers.
#include "wl/c18_run.hpp"

#include <map>

namespace c18 {
namespace {

void busy(u32 n) {
  for (u32 i = 0; i < n; ++i) {
    switch (gen(3)) {
      case 0: yield(); break;
      case 1: nap(gen(60)); break;
      default: nap(500 * gen(20)); break;
    }
  }
}

// ---- join, detach, identity -----------------------------------------------------------------------------------
struct Ctx {
  u32 started = 0, finished = 0;
};

void node(Ctx& c, u32 depth);

void spawn(Ctx& c, u32 depth) {
  struct Child {
    bool done = false;
    yaclib_std::thread::id id{};
  };
  const u32 n = gen(3) + (depth == 0 ? 1 : 0);
  std::vector<std::shared_ptr<Child>> kids;
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < n; ++i) {
    auto k = std::make_shared<Child>();
    kids.push_back(k);
    ++c.started;
    ts.emplace_back([&c, k, depth] {
      k->id = yaclib_std::this_thread::get_id();
      busy(gen(3));
      if (depth < 2) spawn(c, depth + 1);
      busy(gen(2));
      ++c.finished;
      k->done = true;
      sim::ev(10);
    });
    if (!ts.back().joinable()) sim::fail(sim::kOracle, "joinable", "a started thread is not joinable");
  }
  busy(gen(3));
  for (u32 i = 0; i < n; ++i) {
    const u32 j = i + gen(n - i);
    std::swap(ts[i], ts[j]);
    std::swap(kids[i], kids[j]);
    yaclib_std::thread t{std::move(ts[i])};
    if (ts[i].joinable()) sim::fail(sim::kOracle, "joinable", "a moved-from thread is joinable");
    if (genp(1, 3)) {
      yaclib_std::thread u;
      if (u.joinable()) sim::fail(sim::kOracle, "joinable", "a default constructed thread is joinable");
      u = std::move(t);
      t.swap(u);
    }
    const auto id = t.get_id();
    if (genp(1, 5)) {
      t.detach();
      sim::probe("detached");
    } else {
      if (kids[i]->done) sim::probe("joined_after_the_end");
      t.join();
      if (!kids[i]->done) sim::fail(sim::kOracle, "join-early", "join returned before the thread function finished");
      if (id != kids[i]->id) sim::fail(sim::kOracle, "thread-id", "get_id of the thread object and of the running thread differ");
    }
    if (t.joinable()) sim::fail(sim::kOracle, "joinable", "a joined or detached thread is joinable");
    sim::ev(11);
  }
}

Ctx* ctx;
void threads() { spawn(*ctx, 0); }
void threads_run() {
  Ctx c;
  ctx = &c;
  run<threads>();
  // detached ones too
  if (c.started != c.finished) sim::fail(sim::kHang, "thread-lost", "%u threads were started, %u finished", c.started, c.finished);
}

// ---- sleeping -----------------------------------------------------------------------------------------------
void sleeps() {
  const u32 k = 1 + gen(4);
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) {
    ts.emplace_back([] {
      const u32 n = 1 + gen(6);
      for (u32 j = 0; j < n; ++j) {
        const auto d = timeout();
        const auto t0 = now();
        switch (gen(3)) {
          case 0: yaclib_std::this_thread::sleep_for(d); break;
          case 1: yaclib_std::this_thread::sleep_until(Clock::now() + d); break;
          default: yaclib_std::this_thread::sleep_for(std::chrono::microseconds{d.count() / 1000}); break;
        }
        const auto dt = now() - t0;
        if (gen(3) != 7 && dt < 0) sim::fail(sim::kOracle, "clock", "the clock went back");
        sim::ev(12, u64(dt));
      }
    });
  }
  std::vector<long long> due;
  const u32 n = 1 + gen(4);
  for (u32 j = 0; j < n; ++j) {
    const auto d = timeout();
    const auto t0 = now();
    nap(d.count());
    if (d.count() <= 0 && exact && now() != t0) sim::fail(sim::kOracle, "sleep-late", "sleeping %lld ns took %lld ns", (long long)d.count(), now() - t0);
    const auto tp = Clock::now() + timeout();
    yaclib_std::this_thread::sleep_until(tp);
    if (Clock::now() < tp) sim::fail(sim::kOracle, "sleep-early", "sleep_until returned %lld ns early", (long long)(tp - Clock::now()).count());
  }
  for (auto& t : ts) t.join();
}

// ---- yield lets the others run ---------------------------------------------------------------------------------
// Fibers which wait by asking again and again; whoever they wait for runs, yields or sleeps meanwhile.
void spins() {
  yaclib_std::mutex m;
  bool flag[4] = {};
  u32 inside = 0;
  const u32 k = 2 + gen(3);
  std::vector<yaclib_std::thread> ts;
  auto spin = [&](const char* what, auto&& until) {
    const auto t0 = now();
    for (u32 i = 0; !until(); ++i) {
      if (i == 20000) sim::fail(sim::kOracle, "yield", "a fiber which asked for %s and yielded 20000 times in a row kept out whoever it waits for (%lld ns passed)", what, now() - t0);
      yield();
    }
  };
  for (u32 t = 0; t < k; ++t) {
    ts.emplace_back([&, t] {
      for (u32 r = 1 + gen(3); r != 0; --r) {
        spin("a lock", [&] { return m.try_lock(); });
        if (++inside != 1) sim::fail(sim::kOracle, "exclusion", "mutex: two holders");
        switch (gen(3)) {
          case 0: yield(); break;
          case 1: nap(gen(20) * (long long)tick); break;
          default: break;
        }
        --inside;
        m.unlock();
        sim::ev(15);
        if (genp(1, 3)) nap(gen(20) * (long long)tick);
      }
      if (t != 0) spin("a flag", [&] { return flag[t - 1]; });
      flag[t] = true;
    });
  }
  spin("a flag", [&] { return flag[k - 1]; });
  for (auto& t : ts) t.join();
}

// ---- thread-local pointers ---------------------------------------------------------------------------------------
struct Obj {
  int a, b;
};
int ints[8];
long longs[8];
struct Base {
  int x;
};
struct Derived : Obj, Base {};  // not at the address of its Base
Derived derived[4];
Obj objs[8];

YACLIB_THREAD_LOCAL_PTR(int) p0;
YACLIB_THREAD_LOCAL_PTR(int) p1{&ints[1]};
YACLIB_THREAD_LOCAL_PTR(int) p2 = nullptr;
YACLIB_THREAD_LOCAL_PTR(long) q0;
YACLIB_THREAD_LOCAL_PTR(long) q1{&longs[2]};
YACLIB_THREAD_LOCAL_PTR(Obj) r0{&objs[3]};
YACLIB_THREAD_LOCAL_PTR(Base) s0;
YACLIB_THREAD_LOCAL_PTR(Derived) d0;
using PInt = YACLIB_THREAD_LOCAL_PTR(int);

struct Mine {  // what this fiber has to see
  int* p[3] = {nullptr, &ints[1], nullptr};
  long* q[2] = {nullptr, &longs[2]};
  Obj* r = &objs[3];
};
template <typename T, typename P>
void look(const char* n, T* want, P& p) {
  if (p.Get() != want || !(p == want) || (p != want) || bool(p) != (want != nullptr) || (p == nullptr) != (want == nullptr) || (nullptr == p) != (want == nullptr) || (p != nullptr) != (want != nullptr) ||
      (nullptr != p) != (want != nullptr))
    sim::fail(sim::kOracle, "thread-local", "%s: the fiber sees another value than it set (%p instead of %p)", n, (void*)p.Get(), (void*)want);
  if (want != nullptr && (&*p != want || p.operator->() != want || &p[0] != want)) sim::fail(sim::kOracle, "thread-local", "%s: dereferenced to another object", n);
}
void look_all(const Mine& m) {
  look("p0", m.p[0], p0);
  look("p1", m.p[1], p1);
  look("p2", m.p[2], p2);
  look("q0", m.q[0], q0);
  look("q1", m.q[1], q1);
  look("r0", m.r, r0);
}
template <typename L, typename R>
void compare(const L& l, const R& r, const int* lv, const int* rv) {
  const auto x = reinterpret_cast<std::uintptr_t>(lv), y = reinterpret_cast<std::uintptr_t>(rv);
  if ((l == r) != (x == y) || (l != r) != (x != y) || (l < r) != (x < y) || (l > r) != (x > y) || (l <= r) != (x <= y) || (l >= r) != (x >= y))
    sim::fail(sim::kOracle, "thread-local", "thread local pointers with the values %p and %p compare differently", (const void*)lv, (const void*)rv);
}
void compare_all(const Mine& m) {
  compare(p0, p1, m.p[0], m.p[1]);
  compare(p1, p2, m.p[1], m.p[2]);
  compare(p2, p2, m.p[2], m.p[2]);
  int* const a = &ints[gen(8)];
  compare(p0, a, m.p[0], a);
  compare(a, p1, a, m.p[1]);
  if (m.p[0] != nullptr) {
    const u32 i = gen(u32(&ints[8] - m.p[0]));
    if (&p0[i] != m.p[0] + i) sim::fail(sim::kOracle, "thread-local", "p0[%u] is another object", i);
  }
}
bool clean() {
  const Mine m;
  return p0.Get() == m.p[0] && p1.Get() == m.p[1] && p2.Get() == m.p[2] && q0.Get() == m.q[0] && q1.Get() == m.q[1] && r0.Get() == m.r;
}

// Copies are variables of their own, which start with what the copied one held in the fiber that made them.
struct Copies {
  PInt a;
  PInt b;
  int* a0;
  int* b0;
  explicit Copies(const Mine& m) : a{p0}, b{p1}, a0{m.p[0]}, b0{m.p[1]} {
  }
};
void copies_fiber(Copies& shared) {
  Mine m;
  int* sa = shared.a0;
  int* sb = shared.b0;
  const u32 n = 1 + gen(6);
  for (u32 i = 0; i < n; ++i) {
    if (genp(1, 2)) {
      p0 = m.p[0] = &ints[gen(8)];
    } else {
      p1 = m.p[1] = genp(1, 3) ? nullptr : &ints[gen(8)];
    }
    Copies own{m};
    int* oa = own.a0;
    int* ob = own.b0;
    for (u32 j = gen(4); j != 0; --j) {
      int* const v = gen(5) == 0 ? nullptr : &ints[gen(8)];
      switch (gen(7)) {
        case 0: own.a = v, oa = v; break;
        case 1: own.b = v, ob = v; break;
        case 2: shared.a = v, sa = v; break;
        case 3: shared.b = v, sb = v; break;
        case 4: own.b = own.a, ob = oa; break;
        case 5: own.a = shared.a, oa = sa; break;
        default: shared.b = p2, sb = m.p[2]; break;
      }
      if (genp(1, 2)) yield();
    }
    look("a copy", oa, own.a);
    look("a second copy", ob, own.b);
    look("a shared copy", sa, shared.a);
    look("a shared second copy", sb, shared.b);
    look_all(m);
    if (Derived* const v = gen(4) == 0 ? nullptr : &derived[gen(4)]; genp(1, 3)) {
      d0 = v;
      if (genp(1, 2)) {
        s0 = d0;
      } else {
        s0 = std::move(d0);
      }
      look("a pointer to the derived object", v, d0);
      look("a pointer to the base object", static_cast<Base*>(v), s0);
      s0 = static_cast<Base*>(nullptr);
      d0 = static_cast<Derived*>(nullptr);
    }
    PInt moved{std::move(own.a)};
    look("a moved copy", oa, moved);
    sim::ev(14);
    if (genp(1, 2)) yield();
  }
}
void tls_copies() {
  static bool unfinished = false;
  if (unfinished && !clean()) return;
  unfinished = true;
  Mine m;
  yaclib_std::thread top{[] {  // as its own thread, because the copied values have to go with it
    Mine mine;
    p0 = mine.p[0] = &ints[gen(8)];
    if (genp(1, 2)) p1 = mine.p[1] = &ints[gen(8)];
    Copies c{mine};
    std::vector<yaclib_std::thread> ts;
    for (u32 i = 1 + gen(4); i != 0; --i) ts.emplace_back([&] { copies_fiber(c); });
    look_all(mine);
    for (auto& t : ts) t.join();
    look("a copy", c.a0, c.a);
    look("a second copy", c.b0, c.b);
    look_all(mine);
  }};
  top.join();
  look_all(m);
  unfinished = false;
}

void tls_fiber() {
  Mine m;
  const u32 n = 1 + gen(10);
  for (u32 i = 0; i < n; ++i) {
    look_all(m);
    int* const a = gen(5) == 0 ? nullptr : &ints[gen(8)];
    long* const b = gen(5) == 0 ? nullptr : &longs[gen(8)];
    switch (gen(10)) {
      case 0: p0 = a, m.p[0] = a; break;
      case 1: p1 = a, m.p[1] = a; break;
      case 2: p2 = a, m.p[2] = a; break;
      case 3: q0 = b, m.q[0] = b; break;
      case 4: q1 = b, m.q[1] = b; break;
      case 5: {
        Obj* const o = &objs[gen(8)];
        r0 = o, m.r = o;
        break;
      }
      case 6: p0 = p1, m.p[0] = m.p[1]; break;
      case 7: p2 = p0, m.p[2] = m.p[0]; break;
      case 8: p1 = std::move(p2), m.p[1] = m.p[2]; break;
      default: q0 = q1, m.q[0] = m.q[1]; break;
    }
    look_all(m);
    compare_all(m);
    sim::ev(13);
    if (genp(1, 2)) yield();
  }
}
void tls() {
  static bool unfinished = false;
  if (unfinished && !clean()) return;  // an earlier run of this process, which has reported it, left something behind
  unfinished = true;
  look_all(Mine{});
  const u32 k = 1 + gen(4);
  std::vector<yaclib_std::thread> ts;
  for (u32 i = 0; i < k; ++i) ts.emplace_back(tls_fiber);
  if (genp(1, 2)) tls_fiber();
  for (auto& t : ts) t.join();
  // a fiber that set nothing sees what was given at construction
  yaclib_std::thread t{[] { look_all(Mine{}); }};
  t.join();
  unfinished = false;
}

const sim::Workload w0{"c18/threads", "C18", threads_run, sim::kAll, 2, 200000};
const sim::Workload w1{"c18/sleeps", "C18", run<sleeps>, sim::kAll, 2, 200000};
const sim::Workload w2{"c18/tls", "C18", run<tls>, sim::kAll, 2, 200000};
const sim::Workload w4{"c18/spins", "C18", run<spins>, sim::kAll, 1, 200000};
const sim::Workload w3{"c18/tlscopy", "C18", run<tls_copies>, sim::kAll, 1, 200000};

}  // namespace
}  // namespace c18
