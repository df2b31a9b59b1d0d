// Jobs with a ledger: who submitted them, when, how they ended.
#pragma once
#include "kit.hpp"

#include <chrono>

namespace kit {

struct Rec {
  int by = 0;          // submitter
  int seq = 0;         // program order of that submitter
  u64 inv = 0, ret = 0;  // submission interval
  bool submitted = false, returned = false;
  int called = 0, dropped = 0;
  u64 start = 0, end = 0;
  bool running = false;
  int order = -1;  // position in the execution order
  int fiber = -1;
  bool blocking = false;  // the body ran an operation that can block
};

// Host-side ledger (invisible to the simulator: adds no happens-before edges).
class Board {
 public:
  explicit Board(int cap);
  ~Board();
  int add(int by);  // a new job, returns its id; submission begins now
  void returned(int id);
  void start(int id);
  void end(int id);
  void drop(int id);
  const Rec& at(int id) const;
  int size() const;
  int running() const;   // jobs inside their body
  int executed() const;
  int dropped() const;

 private:
  Rec* _r;
  int _n = 0, _cap;
  int _running = 0, _executed = 0, _dropped = 0;
};

// Waits (by polling in virtual time, so that it orders nothing) until every job submitted so far is finished.
inline bool finished(const Board& b) { return b.executed() - b.running() + b.dropped() == b.size(); }
template <typename... B>
void settle(const B&... b) {
  for (int i = 0; !(finished(b) && ...); ++i) {
    SIM_CHECK(i < 200, "lost", "a submitted job never finished");
    std::this_thread::sleep_for(std::chrono::microseconds(1 << (i < 12 ? i : 12)));
  }
}

inline yaclib::detail::Node& stale() {
  static yaclib::detail::Node node;
  return node;
}

// Calls body(id) on Call, ondrop(id) on Drop. One heap block, destroys itself.
template <typename Body>
class TJob final : public yaclib::Job {
 public:
  TJob(Board& b, int id, Body body) : _b{b}, _id{id}, _body{std::move(body)} {
    if (id & 1) next = &stale();  // like a job that was in another list before
  }
  void Call() noexcept override {
    Board& b = _b;
    const int id = _id;
    b.start(id);
    _tok.use();
    {
      Body body = std::move(_body);
      delete this;
      body(id);
    }
    b.end(id);
  }
  void Drop() noexcept override {
    _tok.use();
    Board& b = _b;
    const int id = _id;
    delete this;
    b.drop(id);
  }

 private:
  Board& _b;
  int _id;
  Tok _tok{5};
  Body _body;
};

// via yaclib::Submit(e, f): a dropped job only shows by the destruction of its capture
struct DropGuard {
  Board* b;
  int id;
  bool armed = true;
  DropGuard(Board* bb, int i) : b{bb}, id{i} {}
  DropGuard(DropGuard&& o) noexcept : b{o.b}, id{o.id}, armed{std::exchange(o.armed, false)} {}
  ~DropGuard() {
    if (armed) b->drop(id);
  }
};

// returns the id
template <typename Body>
int submit(yaclib::IExecutor& e, Board& b, int by, Body body, bool lambda = false) {
  const int id = b.add(by);
  if (lambda) {
    yaclib::Submit(e, [g = DropGuard{&b, id}, t = Tok{6}, body = std::move(body)]() mutable {
      g.armed = false;
      t.use();
      g.b->start(g.id);
      body(g.id);
      const bool fail = g.id % 5 == 4;
      g.b->end(g.id);
      if (fail) throw Boom{g.id};  // nobody is interested: the executor carries on
    });
  } else {
    auto* j = new TJob<Body>{b, id, std::move(body)};
    e.Submit(*j);
  }
  b.returned(id);
  return id;
}

}  // namespace kit
