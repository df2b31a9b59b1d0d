// C18: models the oracles use. Everything runs on one OS thread: plain data, no synchronisation.
#pragma once
#include "wl/fib_kit.hpp"

#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

namespace c18 {

using sim::gen;
using sim::genp;
using sim::u32;
using sim::u64;
using ns = std::chrono::nanoseconds;
using Clock = yaclib_std::chrono::steady_clock;

extern bool exact;     // no injected switches: the model is exact between explicit scheduling points
extern u64 clk;        // counts bookkeeping events
extern u32 jitter;     // what the backend may add to a timed wait
extern u32 tick;

inline long long now() { return static_cast<long long>(fk::now()); }
int me();
void yield();
void nap(long long d);
ns timeout();          // a generated relative timeout, also zero and negative

enum Mode : u32 { X, S };

// who holds a lock, who may hold it
class Book {
 public:
  explicit Book(const char* name);
  ~Book();
  Book(const Book&) = delete;

  // an acquisition starts; -> handle
  int attempt(Mode m, bool blocking);
  void got(int h);
  // try (deadline < 0) or timed acquisition reported failure
  void failed(int h, long long deadline);
  void before_unlock(int h);
  void after_unlock(int h);
  // a condition variable releases and takes the lock
  void cv_release(int h);
  void cv_taken(int h);
  bool held() const;
  bool held_by(int fiber) const;
  void check_idle() const;
  std::function<void()> on_got;
  const char* name() const { return _name; }

 private:
  struct Iv {
    int fiber;
    Mode mode;
    u64 b, e, start;
    bool may, must, dead, waiting, free_at_start;
  };
  static bool conflict(Mode a, Mode b) { return a == X || b == X; }
  bool conflicting_now(const Iv& v) const;
  const char* _name;
  std::vector<Iv> _iv;
};

// what a condition variable owes to its waiters
class CvBook {
 public:
  explicit CvBook(Book& m);
  ~CvBook();
  void block();                 // the current fiber starts to wait, it holds the mutex
  void back(bool still);        // it is awake (still: it will block again)
  template <typename C>
  void notify(C& c, bool all) {
    begin(all);
    all ? c.notify_all() : c.notify_one();
    end(all);
  }
  void check_idle() const;
  u32 waiting() const;

 private:
  void begin(bool all);
  void end(bool all);
  struct W {
    int fiber;
    bool sure, must;
    u64 since;
  };
  Book& _m;
  std::vector<W> _w;
  u32 _owed = 0;
  u64 _last_one = 0;
  u32 _notifying = 0;
};

void on_idle();
extern std::function<void()> idle_extra;

}  // namespace c18
