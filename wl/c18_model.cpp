#include "wl/c18.hpp"

#include <algorithm>

namespace c18 {

bool exact;
u64 clk;
u32 jitter;
u32 tick;
std::function<void()> idle_extra;

namespace {
std::vector<Book*> books;
std::vector<CvBook*> cvs;
}  // namespace

int me() { return fk::self(); }
void yield() { yaclib_std::this_thread::yield(); }
void nap(long long d) {
  const auto t0 = now();
  sim::ev(2, u64(d));
  yaclib_std::this_thread::sleep_for(ns{d});
  if (now() < t0 + d) sim::fail(sim::kOracle, "sleep-early", "sleep_for(%lld) returned after %lld ns", d, now() - t0);
}
ns timeout() {
  static const long long t[] = {333, 0, 1, 7, 50, 5000, 20000, -3, -100000};
  return ns{t[gen(9)]};
}

Book::Book(const char* name) : _name{name} { books.push_back(this); }
Book::~Book() { books.erase(std::find(books.begin(), books.end(), this)); }

bool Book::conflicting_now(const Iv& v) const {
  for (const Iv& o : _iv) {
    if (&o != &v && o.may && !o.dead && o.fiber != v.fiber && conflict(o.mode, v.mode)) return true;
  }
  return false;
}

int Book::attempt(Mode m, bool blocking) {
  ++clk;
  Iv v{me(), m, clk, 0, clk, !exact, false, false, blocking, false};
  _iv.push_back(v);
  _iv.back().free_at_start = !conflicting_now(_iv.back());
  sim::ev(3, u64(m), u64(blocking));
  return int(_iv.size()) - 1;
}

void Book::got(int h) {
  ++clk;
  Iv& v = _iv[u32(h)];
  for (const Iv& o : _iv) {
    if (&o != &v && o.must && o.fiber != v.fiber && conflict(o.mode, v.mode))
      sim::fail(sim::kOracle, "two-holders", "%s: fiber %d was given the lock (%s) while fiber %d holds it (%s)", _name, v.fiber, v.mode == X ? "exclusive" : "shared", o.fiber, o.mode == X ? "exclusive" : "shared");
  }
  v.waiting = false;
  v.may = v.must = true;
  if (exact) v.b = clk;
  sim::ev(4, u64(v.mode));
  if (on_got) on_got();
}

void Book::failed(int h, long long deadline) {
  ++clk;
  Iv& v = _iv[u32(h)];
  v.waiting = false;
  v.dead = true;
  v.may = false;
  sim::ev(5, u64(v.mode));
  if (deadline >= 0 && now() < deadline) sim::fail(sim::kOracle, "timed-lock-early", "%s: a timed acquisition failed at %lld, before its deadline %lld", _name, now(), deadline);
  bool justified = false;
  for (const Iv& o : _iv) {
    if (&o == &v || o.dead || o.fiber == v.fiber || !conflict(o.mode, v.mode)) continue;
    if (o.may || (o.e != 0 && o.e >= v.start)) justified = true;
  }
  if (!justified || (exact && v.free_at_start))
    sim::fail(sim::kOracle, "failed-though-free", "%s: an acquisition (%s%s) failed although the lock was available", _name, deadline >= 0 ? "timed, " : "try, ", v.mode == X ? "exclusive" : "shared");
}

void Book::before_unlock(int h) {
  Iv& v = _iv[u32(h)];
  ++clk;
  v.must = false;
  if (exact) {
    v.may = false;
    v.e = clk;
  }
  sim::ev(6, u64(v.mode));
}
void Book::after_unlock(int h) {
  Iv& v = _iv[u32(h)];
  ++clk;
  v.may = false;
  if (v.e == 0) v.e = clk;
}
void Book::cv_release(int h) {
  Iv& v = _iv[u32(h)];
  ++clk;
  v.must = false;
  if (exact) v.may = false;
  v.start = clk;
  v.waiting = false;
}
void Book::cv_taken(int h) { got(h); }
bool Book::held() const {
  for (const Iv& o : _iv) {
    if (o.must) return true;
  }
  return false;
}
bool Book::held_by(int fiber) const {
  for (const Iv& o : _iv) {
    if (o.must && o.fiber == fiber) return true;
  }
  return false;
}

void Book::check_idle() const {
  bool holder = false, xholder = false, xwaiter = false;
  for (const Iv& o : _iv) {
    if (o.must) {
      holder = true;
      xholder |= o.mode == X;
    }
    if (o.waiting && o.mode == X) xwaiter = true;
  }
  for (const Iv& o : _iv) {
    if (!o.waiting) continue;
    if (o.mode == X && !holder) sim::fail(sim::kOracle, "blocked-though-free", "%s: nothing can run, the lock is free, fiber %d still waits for it (exclusive)", _name, o.fiber);
    if (o.mode == S && !xholder && (!xwaiter || !holder))
      sim::fail(sim::kOracle, "blocked-though-free", "%s: nothing can run, the lock is %s, fiber %d still waits for it (shared)", _name, holder ? "held in shared mode and nobody wants it exclusively" : "free", o.fiber);
  }
}

CvBook::CvBook(Book& m) : _m{m} {
  cvs.push_back(this);
  _m.on_got = [this] {
    for (W& w : _w) {
      if (w.fiber != me()) w.sure = true;
    }
  };
}
CvBook::~CvBook() {
  cvs.erase(std::find(cvs.begin(), cvs.end(), this));
  _m.on_got = nullptr;
}
void CvBook::block() {
  ++clk;
  _w.push_back({me(), exact, false, clk});
}
void CvBook::back(bool still) {
  ++clk;
  for (u32 i = 0; i < _w.size(); ++i) {
    if (_w[i].fiber != me()) continue;
    const W w = _w[i];
    _w.erase(_w.begin() + i);
    if (!w.must && _owed != 0 && (_notifying != 0 || w.since < _last_one)) --_owed;
    if (still) block();
    return;
  }
}
void CvBook::begin(bool all) {
  ++clk;
  sim::ev(7, all);
  if (all) {
    for (W& w : _w) w.must |= w.sure;
    _owed = 0;
    return;
  }
  u32 n = 0;
  for (const W& w : _w) n += w.sure && !w.must;
  if (n > _owed) ++_owed;
  ++_notifying;
}
void CvBook::end(bool all) {
  ++clk;
  if (all) return;
  --_notifying;
  _last_one = clk;
}
void CvBook::check_idle() const {
  if (_m.held()) return;
  for (const W& w : _w) {
    if (w.must) sim::fail(sim::kOracle, "notify-lost", "nothing can run; fiber %d was blocked on the condition variable when notify_all was called and still is", w.fiber);
  }
  if (_owed != 0) sim::fail(sim::kOracle, "notify-lost", "nothing can run; %u notify_one call(s) woke none of the %u fibers that were blocked", _owed, u32(_w.size()));
}
u32 CvBook::waiting() const { return u32(_w.size()); }

void on_idle() {
  sim::probe("idle_virtual_time_jumped");
  for (const Book* b : books) b->check_idle();
  for (const CvBook* c : cvs) c->check_idle();
  if (idle_extra) idle_extra();
}

}  // namespace c18
