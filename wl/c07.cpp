// C07: Strand: one job at a time, in submission order, none lost.
#include "jobs.hpp"

#include <atomic>
#include <functional>

namespace {
using namespace kit;

// Everything that must hold after the run.
void judge(const Board& b, bool may_drop, const char* what) {
  for (int i = 0; i < b.size(); ++i) {
    const Rec& r = b.at(i);
    SIM_CHECK(r.called + r.dropped == 1, "lost", "%s: job %d (submitter %d) was called %d and dropped %d times", what, i, r.by, r.called, r.dropped);
    SIM_CHECK(may_drop || r.dropped == 0, "dropped", "%s: job %d was dropped although the executor accepts work", what, i);
  }
  for (int i = 0; i < b.size(); ++i) {
    for (int j = 0; j < b.size(); ++j) {
      const Rec &x = b.at(i), &y = b.at(j);
      if (i == j || !x.called || !y.called) continue;
      if (x.by == y.by && x.seq < y.seq && x.returned && x.ret <= y.inv) {
        SIM_CHECK(x.order < y.order, "order", "%s: jobs %d and %d of submitter %d ran out of order", what, i, j, x.by);
      } else if (x.returned && x.ret < y.inv) {
        SIM_CHECK(x.order < y.order, "order", "%s: job %d was submitted before job %d but ran after it", what, i, j);
      }
    }
  }
}

struct World {
  Execs ex;
  ProxyPtr base;
  std::vector<yaclib::IExecutorPtr> strands;
  Board board{400};
  // what jobs touch without any synchronisation of their own: only the strand protects it
  int plain = 0;
  int* heap = new int(0);
  HostInt inside;
  HostInt overlap;
  ~World() { delete heap; }

  void body(int id, yaclib::IExecutor& s, int depth, u32 nested, u32 yields) {
    SIM_CHECK(inside.add(1) == 1, "overlap", "job %d runs while another job of the same strand is running", id);
    const int p = plain;
    *heap += 1;
    for (u32 i = 0; i < yields; ++i) sim::yield();
    SIM_CHECK(plain == p, "overlap", "the strand's data changed under job %d", id);
    plain = p + 1;
    if (depth > 0) {
      for (u32 i = 0; i < nested; ++i) push(s, 100 + id, depth - 1, 0, yields);
    }
    inside.add(-1);
  }
  void push(yaclib::IExecutor& s, int by, int depth, u32 nested, u32 yields) {
    const bool lambda = sim::genp(1, 3);
    auto* ps = &s;
    submit(s, board, by, [this, ps, depth, nested, yields](int id) { body(id, *ps, depth, nested, yields); }, lambda);
  }
};

void concurrent() {
  World w;
  const int accept = sim::genp(1, 4) ? int(sim::gen(6)) : -1;
  static const int kinds[] = {xPool2, xPool1, xChaos, xInline, xPool3, xStrandPool, xStoppedInline};
  const int kind = kinds[sim::gen(7)];
  w.base = w.ex.make(kind, accept);
  const bool may_drop = accept >= 0 || kind == xStoppedInline;
  auto strand = yaclib::MakeStrand(w.base);
  const u32 threads = 1 + sim::gen(4);
  {
    Threads t;
    for (u32 k = 0; k < threads; ++k) {
      const u32 n = amount(4, 70);
      const u32 nested = sim::gen(3);
      const u32 yields = sim::gen(3);
      const int pre = int(sim::gen(8));
      // an inline base executor runs the strand on the submitting thread, so a recursive submission must not go deeper than the queue
      t.go([&w, s = strand, k, n, nested, yields, pre]() mutable {
        for (int i = 0; i < pre; ++i) sim::yield();
        for (u32 i = 0; i < n; ++i) {
          w.push(*s, int(k), i == 0 ? 1 : 0, nested, yields);
          if (i % 2) sim::yield();
        }
        s = nullptr;
      });
    }
    if (sim::genp(1, 2)) strand = nullptr;
  }
  settle(w.board);
  strand = nullptr;
  w.base = nullptr;
  w.ex.shutdown();
  judge(w.board, may_drop, "strand");
  if (!may_drop) SIM_CHECK(w.plain == w.board.executed() && *w.heap == w.plain, "overlap", "%d jobs ran but the protected counter is %d", w.board.executed(), w.plain);
}

// Strand over strand, two strands sharing the inner one, plus direct jobs on the inner strand: jobs of all of them exclude each other.
void nested() {
  World w;
  static const int kinds[] = {xPool2, xChaos, xPool3, xInline};
  w.base = w.ex.make(kinds[sim::gen(4)]);
  auto inner = yaclib::MakeStrand(w.base);
  auto a = yaclib::MakeStrand(inner);
  auto b = sim::genp(1, 2) ? yaclib::MakeStrand(inner) : yaclib::MakeStrand(a);
  Board ba{160}, bb{160}, bi{160};
  auto* const base = w.base.Get();  // the jobs may outlive w.base
  const u32 threads = 1 + sim::gen(3);
  {
    Threads t;
    for (u32 k = 0; k < threads; ++k) {
      const u32 n = amount(4, 50);
      const u32 to = sim::gen(27);
      t.go([&, k, n, to] {
        u32 x = to;
        for (u32 i = 0; i < n; ++i, x = x / 3 + i) {
          auto body = [&w, base](int id) { w.body(id, *base, 0, 0, 1); };
          if (x % 3 == 0) {
            submit(*a, ba, int(k), body);
          } else if (x % 3 == 1) {
            submit(*b, bb, int(k), body);
          } else {
            submit(*inner, bi, int(k), body);
          }
        }
      });
    }
  }
  if (sim::genp(1, 2)) a = nullptr, b = nullptr, inner = nullptr;
  settle(ba, bb, bi);
  a = nullptr;
  b = nullptr;
  inner = nullptr;
  w.base = nullptr;
  w.ex.shutdown();
  judge(ba, false, "outer strand a");
  judge(bb, false, "outer strand b");
  judge(bi, false, "inner strand");
}

// A job of the strand waits until another thread has managed to submit to the same strand, and until an unrelated job
// of the underlying executor has run: neither may be blocked by the strand.
void nonblocking() {
  World w;
  w.base = w.ex.make(sim::genp(1, 2) ? xPool2 : xChaos);
  auto strand = yaclib::MakeStrand(w.base);
  Board b{24}, other{8};
  auto* const s = strand.Get();  // the jobs may outlive the pointer
  Latch submitted{1}, unrelated{1};
  submit(*strand, b, 0, [&](int) {
    submitted.wait();
    unrelated.wait();
    w.body(0, *s, 0, 0, 0);
  });
  {
    Threads t;
    const u32 n = 1 + sim::gen(4);
    const bool before = sim::genp(1, 2);
    t.go([&, n, before] {
      if (before) submit(*w.base, other, 1, [&](int) { unrelated.done(); });
      for (u32 i = 0; i < n; ++i) submit(*strand, b, 1, [&w, s](int id) { w.body(id, *s, 0, 0, 1); });
      submitted.done();
      if (!before) submit(*w.base, other, 1, [&](int) { unrelated.done(); });
    });
    if (sim::genp(1, 2)) t.go([&] { submit(*strand, b, 2, [&w, s](int id) { w.body(id, *s, 0, 0, 1); }); });
  }
  settle(b, other);
  strand = nullptr;
  w.base = nullptr;
  w.ex.shutdown();
  judge(b, false, "strand");
}

// Over an executor that never blocks (inline), a strand operation itself never performs a blocking operation.
void wait_free() {
  World w;
  w.base = w.ex.make(xInline);
  auto strand = yaclib::MakeStrand(w.base);
  Threads t;
  const u32 threads = 2 + sim::gen(2);
  for (u32 k = 0; k < threads; ++k) {
    const u32 n = amount(4, 70);
    t.go([&, k, n] {
      for (u32 i = 0; i < n; ++i) {
        const u64 before = sim::block_ops();
        w.push(*strand, int(k), 0, 0, 1);
        SIM_CHECK(sim::block_ops() == before, "blocking", "submitting to a strand performed a blocking operation");
      }
    });
  }
  t.join();
  strand = nullptr;
  judge(w.board, false, "strand");
  SIM_CHECK(w.plain == w.board.executed(), "overlap", "%d jobs ran but the protected counter is %d", w.board.executed(), w.plain);
}

// The underlying pool is stopped while the strand is in use: every job is finished once, the survivors keep their order.
void stopping() {
  World w;
  const int kind = sim::gen(2) ? xPool1 : xPool2;
  w.base = w.ex.make(kind);
  auto strand = yaclib::MakeStrand(w.base);
  if (sim::genp(1, 3)) strand = yaclib::MakeStrand(strand);
  const int how = int(sim::gen(3));
  const int delay = int(sim::gen(16));
  HostInt stopped;
  {
    Threads t;
    const u32 threads = 1 + sim::gen(2);
    for (u32 k = 0; k < threads; ++k) {
      const u32 n = amount(5, 70);
      t.go([&, k, n] {
        for (u32 i = 0; i < n; ++i) w.push(*strand, int(k), 0, 0, 1);
      });
    }
    t.go([&] {
      for (int i = 0; i < delay; ++i) sim::yield();
      sim::count(sim::kStopExec);
      w.ex.stop_pool(0, how);
    });
  }
  strand = nullptr;
  w.base = nullptr;
  w.ex.shutdown();
  judge(w.board, true, "strand over a stopped pool");
}

sim::Workload a{"c07/concurrent", "C07", concurrent, sim::kAll, 4};
sim::Workload b{"c07/nested", "C07", nested, sim::kAll, 2};
sim::Workload c{"c07/nonblocking", "C07", nonblocking, sim::kAll, 1};
sim::Workload d{"c07/wait_free", "C07", wait_free, sim::kAll, 2};
sim::Workload e{"c07/stopping", "C07", stopping, sim::kAll, 3};
}  // namespace
