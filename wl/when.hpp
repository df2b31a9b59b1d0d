// Inputs of a combinator with a ledger of when each of them completed.
#pragma once
#include "consume.hpp"

#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>

#include <algorithm>
#include <functional>
#include <optional>
#include <vector>

namespace kit {

constexpr u64 kNever = ~0ull;

// What is known about one input: it completed inside [b, e].
struct Inp {
  Out o;
  u64 b = kNever, e = kNever;
};

class Ledger {
 public:
  static constexpr int kMax = 40;
  Inp in[kMax];
  int n = 0;
  u64 comb_b = 0, comb_e = kNever;  // the combinator call
  // output
  HostInt seen;
  u64 out_step = kNever;

  int add(Out o) {
    in[n].o = o;
    return n++;
  }
  void begin(int i) {
    in[i].b = sim::steps();
    sim::ev(3000 + u32(i));
  }
  void end(int i) { in[i].e = sim::steps(); }
  // interval in which the combinator can have learnt about input i
  u64 lo(int i) const { return in[i].b == kNever ? kNever : in[i].b > comb_b ? in[i].b : comb_b; }
  u64 hi(int i) const { return in[i].e == kNever || comb_e == kNever ? kNever : in[i].e > comb_e ? in[i].e : comb_e; }
  // j certainly before i
  bool before(int j, int i) const { return hi(j) < lo(i); }
  bool is_ok(int i) const { return in[i].o.k == 'V'; }
  Out outcome(int i) const { return in[i].o.k == 'D' ? stopped() : in[i].o; }
};
// The ledger is harness bookkeeping.
struct LedgerBox {
  Ledger* l;
  LedgerBox() {
    sim::HostScope h;
    l = new Ledger{};
  }
  ~LedgerBox() {
    sim::HostScope h;
    delete l;
  }
  Ledger* operator->() const { return l; }
  Ledger& operator*() const { return *l; }
};

template <typename F>
struct InTypes;
template <typename V, typename E>
struct InTypes<yaclib::Future<V, E>> {
  using V_ = V;
  using E_ = E;
  static constexpr int kind = 0;
};
template <typename V, typename E>
struct InTypes<yaclib::FutureOn<V, E>> {
  using V_ = V;
  using E_ = E;
  static constexpr int kind = 1;
};
template <typename V, typename E>
struct InTypes<yaclib::SharedFuture<V, E>> {
  using V_ = V;
  using E_ = E;
  static constexpr int kind = 2;
};

struct Work {
  int input;
  std::function<void()> set;
};

// The world of one combinator run.
struct Inputs {
  LedgerBox led;
  Execs ex;
  ProxyPtr e;
  std::vector<Work> todo;  // promises still to be fulfilled
  std::vector<std::function<void()>> witnesses;  // other handles to shared inputs

  explicit Inputs(u32 mask = kThreaded | bit(xInline)) : e{ex.random(mask)} {}

  template <typename P, typename V, typename E>
  void contract(P p, int i, bool now) {
    const Out o = led->in[i].o;
    const u32 form = u32(i) + u32(o.id);
    Ledger* l = led.l;
    if (now) {
      l->begin(i);
      fulfil<P, V, E>(std::move(p), o, form);
      l->end(i);
      return;
    }
    auto box = std::make_shared<P>(std::move(p));
    todo.push_back({i, [l, i, o, form, box] {
                      l->begin(i);
                      P q = std::move(*box);
                      fulfil<P, V, E>(std::move(q), o, form);
                      l->end(i);
                    }});
  }

  // one more input of type F
  template <typename F>
  F make(Out o, int how) {
    using V = typename InTypes<F>::V_;
    using E = typename InTypes<F>::E_;
    const int i = led->add(norm<V, E>(o));
    Ledger* l = led.l;
    if constexpr (InTypes<F>::kind == 2) {
      yaclib::SharedFuture<V, E> f;
      if (sim::genp(1, 4)) {  // a coroutine
        auto [uf, up] = yaclib::MakeContract<V, E>();
        f = relay_shared<V, E>(std::move(uf));
        contract<yaclib::Promise<V, E>, V, E>(std::move(up), i, how == 0);
      } else {
        auto [sf, sp] = yaclib::MakeSharedContract<V, E>();
        f = std::move(sf);
        contract<yaclib::SharedPromise<V, E>, V, E>(std::move(sp), i, how == 0);
      }
      if (sim::genp(1, 2)) {
        auto g = [l, i, w = f] {
          const Out got = kit::out(std::as_const(w).Get());
          const Out want = l->outcome(i);
          SIM_CHECK(got == want, "intact", "shared input %d completed with %c%d, but another handle of it sees %c%d", i, want.k, want.id, got.k, got.id);
        };
        witnesses.push_back(std::move(g));
      }
      return f;
    } else {
      if (how == 2 && o.k != 'D') {  // a function run by an executor
        auto g = [l, i, o, t = Tok{20 + i}]() -> yaclib::Result<V, E> {
          t.use();
          l->begin(i);
          return make_result<V, E>(o);
        };
        if constexpr (InTypes<F>::kind == 1) {
          return yaclib::Run<E>(*e, std::move(g));
        } else {
          return yaclib::Run<E>(*e, std::move(g)).On(nullptr);
        }
      }
      if constexpr (InTypes<F>::kind == 1) {
        auto [f, p] = yaclib::MakeContractOn<V, E>(*e);
        contract<yaclib::Promise<V, E>, V, E>(std::move(p), i, how == 0);
        return std::move(f);
      } else {
        auto [f, p] = yaclib::MakeContract<V, E>();
        if (sim::genp(1, 4)) f = relay<V, E>(std::move(f));
        contract<yaclib::Promise<V, E>, V, E>(std::move(p), i, how == 0);
        return std::move(f);
      }
    }
  }
  template <typename F>
  F make_random(bool may_fail = true) {
    Out o = may_fail ? random_out(true) : value(1 + int(sim::gen(5)));
    o.id += 10 * led->n;  // distinct payloads
    return make<F>(o, int(sim::gen(3)));
  }

  // what the other handles of the shared inputs see; after they were fulfilled, or on another thread
  void look(Threads& t, bool now) {
    if (now) {
      for (auto& w : witnesses) w();
      witnesses.clear();
    } else if (!witnesses.empty()) {
      t.go([w = std::move(witnesses)]() mutable {
        for (auto& x : w) {
          x();
          x = nullptr;
        }
      });
      witnesses.clear();
    }
  }

  // Fulfil what is left, on `threads` threads in a random order.
  void produce(Threads& t, u32 threads) {
    std::vector<std::vector<Work>> per(threads);
    while (!todo.empty()) {
      const u32 k = sim::gen(u32(todo.size()));
      per[sim::gen(threads)].push_back(std::move(todo[k]));
      todo.erase(todo.begin() + k);
    }
    for (u32 k = 0; k < threads; ++k) {
      const int pre = int(sim::gen(8));
      const bool gap = sim::genp(1, 2);
      t.go([w = std::move(per[k]), pre, gap]() mutable {
        for (int i = 0; i < pre; ++i) sim::yield();
        for (auto& x : w) {
          x.set();
          x.set = nullptr;
          if (gap) sim::yield();
        }
      });
    }
  }
};

// How the output of a combinator is consumed: fn(Result&&) is called once unless dropped.
enum OutMode { uGet, uThenInline, uThen, uWait, uDetach, uLate, uDrop, uModes };
template <typename V, typename E, typename Fn>
struct OutputOf {
  using Fut = yaclib::Future<V, E>;
  using R = yaclib::Result<V, E>;
  Fut f;
  int mode;
  Fn fn;
  yaclib::IExecutor& e;
  Ledger* led;
  yaclib::Future<int, Err> tail;
  Latch latch{1};

  OutputOf(Fut ff, int m, Fn func, yaclib::IExecutor& ex, Ledger* l) : f{std::move(ff)}, mode{m}, fn{std::move(func)}, e{ex}, led{l} {}

  void mark() {
    SIM_CHECK(led->seen.add(1) == 1, "completed-twice", "the combinator's result is delivered %d times", led->seen.get());
    led->out_step = sim::steps();
  }
  auto cb() {
    return [this, t = Tok{30}](R&& r) {
      t.use();
      mark();
      fn(std::move(r));
      return 7;
    };
  }
  // called right after the combinator returned
  void attach() {
    switch (mode) {
      case uThenInline:
        tail = yaclib::Future<int, Err>{};
        hold(std::move(f).ThenInline(cb()));
        break;
      case uThen:
        hold(std::move(f).Then(e, cb()).On(nullptr));
        break;
      case uDetach:
        std::move(f).DetachInline([this, t = Tok{31}](R&& r) {
          t.use();
          mark();
          fn(std::move(r));
          latch.done();
        });
        break;
      case uDrop:
        f = Fut{};
        break;
      default:
        break;
    }
  }
  template <typename G>
  void hold(G g) {
    _settle = [s = std::make_shared<G>(std::move(g))] { (void)std::move(*s).Get(); };
  }
  // `all_done`: every input has completed by now, in the strong sense (happens-before)
  void finish(bool all_done) {
    switch (mode) {
      case uGet: {
        auto r = std::move(f).Get();
        mark();
        fn(std::move(r));
        break;
      }
      case uWait: {
        Wait(f);
        SIM_CHECK(f.Ready(), "ready", "Wait returned but the combinator's future is not Ready");
        auto r = std::move(f).Touch();
        mark();
        fn(std::move(r));
        break;
      }
      case uLate: {
        if (all_done) SIM_CHECK(f.Ready(), "not-completed", "every input has completed but the combinator's future is not Ready");
        auto r = std::move(f).Get();
        mark();
        fn(std::move(r));
        break;
      }
      case uThenInline:
      case uThen:
        if (all_done && mode == uThenInline) SIM_CHECK(led->seen.get() == 1, "not-completed", "every input has completed but the combinator's callback did not run");
        _settle();
        break;
      case uDetach:
        if (all_done) SIM_CHECK(led->seen.get() == 1, "not-completed", "every input has completed but the combinator's callback did not run");
        latch.wait();
        break;
      case uDrop:
        return;
    }
    SIM_CHECK(led->seen.get() == 1, "completed-twice", "the combinator's result was delivered %d times", led->seen.get());
  }
  std::function<void()> _settle;
};

}  // namespace kit
