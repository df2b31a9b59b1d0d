// Not instrumented: bookkeeping. (kit_exec.cpp holds the instrumented executors.)
#include "kit.hpp"

#include <cstring>

namespace kit {

static int s_live[tTracks];
static const char* const kTrackName[tTracks] = {"stored value", "callback capture", "error", "coroutine frame local", "executor"};
struct Tags {
  int n;
  int t[200];
};
static Tags s_tags[64];

void track(Track t, int d) {
  s_live[t] += d;
  if (s_live[t] < 0) {
    sim::fail(sim::kOracle, "destroyed-twice", "%s destroyed more often than constructed", kTrackName[t]);
  }
}
int live(Track t) { return s_live[t]; }
void check_no_live(const char* where) {
  for (int i = 0; i < tTracks; ++i) {
    SIM_CHECK(s_live[i] == 0, "not-released", "%s: %d object(s) of kind '%s' still alive at quiescence", where, s_live[i],
              kTrackName[i]);
  }
}
int boom_id(const std::exception_ptr& p) {
  if (!p) return -3;
  try {
    std::rethrow_exception(p);
  } catch (const Boom& b) {
    return b.id;
  } catch (...) {
    return -2;
  }
}

Slots::Slots(int n) : _n{n} {
  sim::HostScope h;
  _s = new Seen[std::size_t(n)];
}
Slots::~Slots() {
  sim::HostScope h;
  delete[] _s;
}
void Slots::see(int i, Out o) {
  Seen& s = _s[i];
  ++s.n;
  s.last = o;
  s.step = sim::steps();
  s.fiber = sim::self();
  sim::ev(1000 + u32(i), u64(o.k), u64(o.id));
}
int Slots::count(int i) const { return _s[i].n; }
Out Slots::last(int i) const { return _s[i].last; }
u64 Slots::step(int i) const { return _s[i].step; }
int Slots::fiber(int i) const { return _s[i].fiber; }

HostInt::HostInt(int v) : _v{v} {}
int HostInt::get() const { return _v; }
void HostInt::set(int v) { _v = v; }
int HostInt::add(int v) { return _v += v; }

void push_tag(int tag) {
  Tags& t = s_tags[sim::self()];
  if (t.n < 200) t.t[t.n] = tag;
  ++t.n;
}
void pop_tag() { --s_tags[sim::self()].n; }
int top_tag() {
  const Tags& t = s_tags[sim::self()];
  return t.n > 0 && t.n <= 200 ? t.t[t.n - 1] : -1;
}
bool has_tag(int tag) {
  const Tags& t = s_tags[sim::self()];
  for (int i = 0; i < t.n && i < 200; ++i) {
    if (t.t[i] == tag) return true;
  }
  return false;
}

}  // namespace kit

#include "jobs.hpp"

namespace kit {
Board::Board(int cap) : _cap{cap} {
  sim::HostScope h;
  _r = new Rec[std::size_t(cap)];
}
Board::~Board() {
  sim::HostScope h;
  delete[] _r;
}
int Board::add(int by) {
  if (_n >= _cap) sim::fail(sim::kOracle, "harness", "board overflow");
  Rec& r = _r[_n];
  r.by = by;
  for (int i = 0; i < _n; ++i) r.seq += _r[i].by == by;
  r.submitted = true;
  r.inv = sim::steps();
  sim::ev(2000 + u32(_n), u64(by));
  return _n++;
}
void Board::returned(int id) {
  _r[id].returned = true;
  _r[id].ret = sim::steps();
}
void Board::start(int id) {
  Rec& r = _r[id];
  SIM_CHECK(++r.called == 1, "called-twice", "job %d is called %d times", id, r.called);
  SIM_CHECK(r.dropped == 0, "called-and-dropped", "job %d is called after it was dropped", id);
  r.order = _executed++;
  r.start = sim::steps();
  r.running = true;
  r.fiber = sim::self();
  ++_running;
  sim::ev(2100 + u32(id));
}
void Board::end(int id) {
  Rec& r = _r[id];
  r.running = false;
  r.end = sim::steps();
  --_running;
}
void Board::drop(int id) {
  Rec& r = _r[id];
  SIM_CHECK(++r.dropped == 1, "dropped-twice", "job %d is dropped %d times", id, r.dropped);
  SIM_CHECK(r.called == 0, "called-and-dropped", "job %d is dropped after it was called", id);
  ++_dropped;
  sim::ev(2200 + u32(id));
}
const Rec& Board::at(int id) const { return _r[id]; }
int Board::size() const { return _n; }
int Board::running() const { return _running; }
int Board::executed() const { return _executed; }
int Board::dropped() const { return _dropped; }
}  // namespace kit
