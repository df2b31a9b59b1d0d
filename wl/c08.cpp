// C08: FairThreadPool: accepted jobs all run, rejected ones drop, Wait means done.
#include "jobs.hpp"

#include <vector>

namespace {
using namespace kit;

enum How { hStop, hSoft, hHard };
const char* const kHow[] = {"Stop", "SoftStop", "HardStop"};

// Host ledger of the stop calls and of where jobs were dropped.
struct Stops {
  struct S {
    int how;
    u64 inv, ret;
    bool returned;
    int fiber;
  };
  S s[8];
  int n = 0;
  u64 drop_step[160] = {};
  int drop_fiber[160] = {};
};

struct World;
struct Body;
void run_body(World& w, int id);

struct World {
  yaclib::IntrusivePtr<yaclib::FairThreadPool> pool;
  int workers;
  Board board{160};
  Stops* st;
  int input[160];   // written by the submitter before Submit, read by the job
  int output[160];  // written by the job, read after Wait
  int nested[160];
  int stop_inside = -1;  // a job that stops the pool itself
  int stop_how = 0;
  HostInt made;

  explicit World(int n) : pool{yaclib::MakeFairThreadPool(u32(n))}, workers{n} {
    sim::HostScope h;
    st = new Stops{};
    for (auto& x : nested) x = 0;
    sim::forget(nested, sizeof nested);
  }
  ~World() {
    sim::HostScope h;
    delete st;
  }
  int begin_stop(int how) {
    sim::HostScope h;
    st->s[st->n] = {how, sim::steps(), 0, false, sim::self()};
    return st->n++;
  }
  void end_stop(int i) {
    sim::HostScope h;
    st->s[i].ret = sim::steps();
    st->s[i].returned = true;
  }
  void stop(int how) {
    const int i = begin_stop(how);
    sim::count(sim::kStopExec);
    sim::log("%s begins", kHow[how]);
    if (how == hStop) {
      pool->Stop();
    } else if (how == hSoft) {
      pool->SoftStop();
    } else {
      pool->HardStop();
    }
    end_stop(i);
  }
  void push(int by, int nest);
  void judge();
};

class PJob final : public yaclib::Job {
 public:
  PJob(World& w, int id) : _w{w}, _id{id} {
    if (id & 1) next = &stale();  // like a job that was in another list before
  }
  void Call() noexcept override {
    World& w = _w;
    const int id = _id;
    w.board.start(id);
    _tok.use();
    delete this;
    run_body(w, id);
    w.board.end(id);
  }
  void Drop() noexcept override {
    World& w = _w;
    const int id = _id;
    _tok.use();
    delete this;
    {
      sim::HostScope h;
      w.st->drop_step[id] = sim::steps();
      w.st->drop_fiber[id] = sim::self();
    }
    w.board.drop(id);
  }

 private:
  World& _w;
  int _id;
  Tok _tok{8};
};

void World::push(int by, int nest) {
  const int id = board.add(by);
  input[id] = 1000 + id;
  nested[id] = nest;
  auto* j = new PJob{*this, id};
  pool->Submit(*j);
  board.returned(id);
}
void run_body(World& w, int id) {
  SIM_CHECK(w.input[id] == 1000 + id, "lost-write", "job %d does not see what its submitter wrote", id);
  SIM_CHECK(w.board.running() <= w.workers, "workers", "%d jobs run on %d workers", w.board.running(), w.workers);
  if (id % 2) sim::yield();
  const int nest = w.nested[id];
  for (int i = 0; i < nest; ++i) w.push(100 + id, 0);
  if (w.stop_inside == id) w.stop(w.stop_how);
  w.output[id] = 2000 + id;
}

void World::judge() {
  SIM_CHECK(board.running() == 0, "running-after-wait", "Wait returned but %d job(s) are running", board.running());
  u64 first_stop = ~0ull;
  bool hard = false, plain_stop = false;
  for (int i = 0; i < st->n; ++i) {
    if (st->s[i].inv < first_stop) first_stop = st->s[i].inv;
    hard |= st->s[i].how == hHard;
    plain_stop |= st->s[i].how == hStop;
  }
  for (int i = 0; i < board.size(); ++i) {
    const Rec& r = board.at(i);
    SIM_CHECK(r.called + r.dropped == 1, "lost", "after Wait job %d was called %d and dropped %d times", i, r.called, r.dropped);
    if (r.called) {
      SIM_CHECK(output[i] == 2000 + i, "lost-write", "what job %d wrote is not visible after Wait", i);
      for (int k = 0; k < st->n; ++k) {
        const auto& s = st->s[k];
        SIM_CHECK(s.how == hSoft || !s.returned || r.inv < s.ret, "accepted-after-stop", "job %d was submitted after %s returned but it was called", i, kHow[s.how]);
      }
      continue;
    }
    const u64 d = st->drop_step[i];
    SIM_CHECK(first_stop < d, "dropped-alive", "job %d was dropped although nobody stopped the pool", i);
    const bool in_submit = d >= r.inv && (!r.returned || d <= r.ret);
    if (in_submit) {
      // rejected: only a stopped pool may do that. If only SoftStop was requested so far, the pool must have been idle at some moment.
      u64 soft = ~0ull;
      bool stopped = false;
      for (int k = 0; k < st->n; ++k) {
        if (st->s[k].how == hSoft) {
          if (st->s[k].inv < soft) soft = st->s[k].inv;
        } else if (st->s[k].inv < d) {
          stopped = true;
        }
      }
      if (!stopped) {
        SIM_CHECK(soft < d, "dropped-alive", "job %d was rejected although nobody stopped the pool", i);
        u64 t = soft;  // earliest moment not yet known to be busy
        for (bool moved = true; moved && t <= d;) {
          moved = false;
          for (int j = 0; j < board.size(); ++j) {
            const Rec& b = board.at(j);
            if (!b.called) continue;
            const u64 lo = b.returned && b.ret < b.start ? b.ret : b.start;
            if (lo <= t && b.end > t) {
              t = b.end;
              moved = true;
            }
          }
        }
        SIM_CHECK(t <= d, "softstop-busy", "job %d was rejected under SoftStop although a job was queued or running all the time since the call", i);
      }
    } else {
      bool inside_hard = false;
      for (int k = 0; k < st->n; ++k) {
        const auto& s = st->s[k];
        if (s.how == hHard && s.fiber == st->drop_fiber[i] && s.inv <= d && (!s.returned || d <= s.ret)) inside_hard = true;
      }
      SIM_CHECK(inside_hard, "dropped-accepted", "job %d was accepted and then dropped outside HardStop", i);
    }
  }
  if (workers == 1) {
    for (int i = 0; i < board.size(); ++i) {
      for (int j = 0; j < board.size(); ++j) {
        const Rec &x = board.at(i), &y = board.at(j);
        if (i == j || !x.called || !y.called || !x.returned || x.ret > y.inv) continue;
        SIM_CHECK(x.order < y.order, "order", "one worker, but job %d submitted before job %d started after it", i, j);
      }
    }
  }
}

void stops() {
  World w{1 + int(sim::gen(3))};
  const u32 threads = 1 + sim::gen(3);
  const u32 nstops = 1 + sim::gen(3);
  if (sim::genp(1, 4)) {
    w.stop_inside = int(sim::gen(4));
    w.stop_how = int(sim::gen(3));
  }
  SIM_CHECK(w.pool->Alive(), "alive", "a new pool is not Alive");
  {
    Threads t;
    for (u32 k = 0; k < threads; ++k) {
      const u32 n = amount(4, 40);
      const int nest = int(sim::gen(3));
      const int pre = int(sim::gen(6));
      t.go([&w, k, n, nest, pre] {
        for (int i = 0; i < pre; ++i) sim::yield();
        for (u32 i = 0; i < n; ++i) w.push(int(k), i == 0 ? nest : 0);
      });
    }
    for (u32 k = 0; k < nstops; ++k) {
      const int how = int(sim::gen(3));
      const int pre = int(sim::gen(20));
      t.go([&w, how, pre] {
        for (int i = 0; i < pre; ++i) sim::yield();
        w.stop(how);
        if (how != hSoft) SIM_CHECK(!w.pool->Alive(), "alive", "the pool is Alive after %s returned", kHow[how]);
      });
    }
    // Wait from this thread while the others still work, or after they are done
    if (sim::genp(1, 2)) t.join();
    w.pool->Wait();
    SIM_CHECK(w.board.running() == 0, "running-after-wait", "Wait returned but a job is running");
    const int ran = w.board.executed();
    sim::yield();
    t.join();
    w.push(99, 0);
    SIM_CHECK(w.board.executed() == ran, "runs-after-wait", "a job ran after Wait returned");
  }
  SIM_CHECK(!w.pool->Alive(), "alive", "the pool is Alive after Wait returned");
  w.judge();
}

// Submit, then stop with one call and wait: everything accepted runs.
void drain() {
  World w{1 + int(sim::gen(2))};
  const u32 n = sim::genp(1, 16) ? 40 : sim::gen(6);
  const bool soft = sim::genp(1, 2);
  for (u32 i = 0; i < n; ++i) w.push(0, int(sim::gen(2)));
  w.stop(soft ? hSoft : hStop);
  if (sim::genp(1, 2)) {
    Threads t;
    t.go([&] {
      w.push(1, 0);
      w.push(1, 0);
    });
    w.pool->Wait();
  } else {
    w.pool->Wait();
  }
  w.judge();
  for (u32 i = 0; i < n; ++i) SIM_CHECK(w.board.at(int(i)).called == 1 || w.board.at(int(i)).by != 0, "lost", "job %u was accepted but not called", i);
}

// As many jobs as workers wait for each other: every worker has to pick one up.
void barrier() {
  const int n = 2 + int(sim::gen(2));
  auto pool = yaclib::MakeFairThreadPool(u32(n));
  Latch latches[] = {Latch{n}, Latch{n}};
  for (u32 round = 0, rounds = 1 + sim::gen(2); round < rounds; ++round) {
    Board b{8};
    Latch& l = latches[round];
    {
      Threads t;
      const int split = int(sim::gen(u32(n)));
      t.go([&] {
        for (int i = 0; i < split; ++i) {
          submit(*pool, b, 0, [&](int) {
            l.done();
            l.wait();
          });
        }
      });
      for (int i = split; i < n; ++i) {
        submit(*pool, b, 1, [&](int) {
          l.done();
          l.wait();
        }, true);
      }
    }
    settle(b);
  }
  pool->SoftStop();
  pool->Wait();
}

sim::Workload a{"c08/stops", "C08", stops, sim::kAll, 5};
sim::Workload b{"c08/drain", "C08", drain, sim::kAll, 2};
sim::Workload c{"c08/barrier", "C08", barrier, sim::kAll, 1};
}  // namespace
