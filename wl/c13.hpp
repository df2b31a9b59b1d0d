// C13: generated coroutines. One script, three coroutine types; every await has its source, its producer and its check.
#pragma once
#include "chain.hpp"

#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/shared_future.hpp>

#include <memory>

namespace c13 {
using namespace kit;

enum Op : u32 {
  oFuture, oFutureOn, oShared, oTask,                                    // co_await the thing itself
  oAwait, oAwaitOnF, oAwaitShared, oAwaitTask, oAwaitTwo, oAwaitMixed, oAwaitRange, oAwaitSharedRange,
  oOnOne, oOnShared, oOnTwo, oOnMixed, oOnRange, oOnSharedRange,         // AwaitOn
  oStOne, oStShared, oStTwo, oStMixed, oStRange, oStSharedRange,         // AwaitSticky
  oOn, oYield, oYieldFn, oCurrent,
  oOps
};
const char* op_name(u32 op);
inline bool is_await_on(u32 op) { return op >= oOnOne && op <= oOnSharedRange; }
inline bool is_sticky(u32 op) { return op >= oStOne && op <= oStSharedRange; }
inline bool is_single(u32 op) { return op <= oTask; }

// something that will happen
struct Src {
  HostInt begun;
  int plain = 0;  // written by the producer, read by the resumed coroutine
  Out o;
  u32 kind = 0, form = 0;
  int depth = 0;
  void happen() {
    begun.set(1);
    plain = 1;
  }
  Out seen() const { return o.k == 'D' ? stopped() : o; }
};
struct Step {
  u32 op = oOn;
  int exec = 0;
  int n = 0;  // sources
  Src* s[12] = {};
  bool caught = true;
  u32 form = 0;
};
enum Ret : u32 { qValue, qResult, qError, qPtr, qThrow, qRets };
struct Script {
  int n = 0;
  Step st[6];
  u32 ret = qValue;
  Out out;
};

// runs closures on another thread, in an order of its own
class Deferred {
  struct Base {
    virtual ~Base() = default;
    virtual void run() = 0;
  };
  template <typename Fn>
  struct Impl final : Base {
    Fn f;
    explicit Impl(Fn&& g) : f{std::move(g)} {}
    void run() override { f(); }
  };

 public:
  Deferred();
  ~Deferred() { close(); }
  template <typename Fn>
  void post(Fn f) {
    std::lock_guard l{_m};
    _q.push_back(std::make_unique<Impl<Fn>>(std::move(f)));
    _cv.notify_one();
  }
  void close();

 private:
  void loop();
  std::mutex _m;
  std::condition_variable _cv;
  std::deque<std::unique_ptr<Base>> _q;
  bool _closing = false;
  bool _lifo;
  std::thread _t;
};

struct World {
  Execs ex;
  std::vector<ProxyPtr> e;
  ProxyPtr w;  // used by the producers, always accepts
  std::deque<Src> srcs;
  Deferred d;
  Script s;
  HostInt reached;       // awaits passed
  HostInt resumed[8];
  HostInt failed_at{-1};
  HostInt done;          // the body ran to its end
  HostInt laters, later; // continuations added to awaited futures, and run
  HostInt frames;        // coroutine frames of the body that are alive
};
struct Frame {
  World* w;
  explicit Frame(World& x) : w{&x} { w->frames.add(1); }
  Frame(Frame&& o) noexcept : w{o.w} { w->frames.add(1); }
  ~Frame() { w->frames.add(-1); }
};

using SF = yaclib::SharedFuture<Val, Err>;
F make_future(World& w, Src& s);
FO make_future_on(World& w, Src& s);
SF make_shared(World& w, Src& s);
T make_task(World& w, Src& s);

inline Out caught_exception() {  // in a catch block
  try {
    throw;
  } catch (Boom& b) {
    return except(b.id);
  } catch (yaclib::ResultError<Err>& x) {
    return error(x.Get().code);
  }
}
void plan(World& w, bool refuse);
void judge(World& w, Out got, bool observed);
Out escaped(Out o);  // how an awaited failure that nobody caught shows in the coroutine's own result
Out out_coro(const yaclib::Result<Val, Err>& r);

inline void happened(const Step& st) {
  for (int i = 0; i < st.n; ++i) {
    SIM_CHECK(st.s[i]->begun.get() == 1, "early", "%s resumed before source %d had happened", op_name(st.op), i);
    SIM_CHECK(st.s[i]->plain == 1, "lost-write", "a write made before source %d of %s happened is not visible after it", i, op_name(st.op));
  }
}
template <typename X>
void intact(const Step& st, int i, X& f) {
  SIM_CHECK(f.Valid() && f.Ready(), "ready", "after %s future %d is not valid and ready", op_name(st.op), i);
  const Out o = out(std::as_const(f).Touch());
  SIM_CHECK(o == st.s[i]->seen(), "value", "%s: future %d holds %c%d instead of %c%d", op_name(st.op), i, o.k, o.id, st.s[i]->seen().k, st.s[i]->seen().id);
}

// ... and it still delivers, on its own executor
template <typename X>
void afterwards(World& w, const Step& st, X& f) {
  if constexpr (std::is_same_v<X, FO>) {
    if (st.form % 2) return;
    const Src* s = st.s[0];
    w.laters.add(1);
    std::move(f).Detach([&w, s, t = Tok{13}](yaclib::Result<Val, Err>&& r) {
      t.use();
      const Out o = out(r);
      SIM_CHECK(o == s->seen(), "value", "an awaited future delivered %c%d instead of %c%d", o.k, o.id, s->seen().k, s->seen().id);
      SIM_CHECK(top_tag() == w.w->tag(), "where", "a continuation of an awaited future runs in executor %s instead of its own %s", w.ex.name(top_tag()), w.ex.name(w.w->tag()));
      w.later.add(1);
    });
  }
}

template <typename C>
C body(World& w, Tok t, Frame) {
  Tok a{1};
  int cur = -1;
  for (int i = 0; i < w.s.n; ++i) {
    const Step& st = w.s.st[i];
    Tok local{2};
    auto& e = *w.e[std::size_t(st.exec)];
    Out got;
    bool threw = false;
    if (is_single(st.op)) {
      std::exception_ptr raw;
      try {
        switch (st.op) {
          case oFuture: {
            Val v = co_await make_future(w, *st.s[0]);
            got = value(v.id());
            break;
          }
          case oFutureOn: {
            auto f = make_future_on(w, *st.s[0]);
            Val v = co_await std::move(f);
            SIM_CHECK(!f.Valid(), "valid", "an awaited rvalue future is still Valid");
            got = value(v.id());
            break;
          }
          case oShared: {
            auto f = make_shared(w, *st.s[0]);
            auto g = f;
            Val v = co_await f;
            got = value(v.id());
            intact(st, 0, g);
            intact(st, 0, f);
            break;
          }
          default: {
            Val v = co_await make_task(w, *st.s[0]);
            got = value(v.id());
            break;
          }
        }
      } catch (...) {
        got = caught_exception();
        raw = std::current_exception();
        threw = true;
      }
      happened(st);
      w.resumed[i].add(1);
      SIM_CHECK(got == st.s[0]->seen(), "value", "%s delivered %c%d instead of %c%d", op_name(st.op), got.k, got.id, st.s[0]->seen().k, st.s[0]->seen().id);
      SIM_CHECK(threw == (got.k != 'V'), "value", "%s: a failure was delivered as a value", op_name(st.op));
      cur = -1;
      if (threw && !st.caught) {
        w.failed_at.set(i);
        std::rethrow_exception(raw);
      }
    } else {
      switch (st.op) {
#define ONE(MK, EXPR)                   \
  {                                     \
    auto f = MK(w, *st.s[0]);           \
    co_await EXPR;                      \
    happened(st);                       \
    intact(st, 0, f);                   \
    afterwards(w, st, f);               \
    break;                              \
  }
#define TWO(MKA, MKB, EXPR)             \
  {                                     \
    auto f = MKA(w, *st.s[0]);          \
    auto g = MKB(w, *st.s[1]);          \
    co_await EXPR;                      \
    happened(st);                       \
    intact(st, 0, f);                   \
    intact(st, 1, g);                   \
    break;                              \
  }
#define MIXED(EXPR)                     \
  {                                     \
    auto f = make_shared(w, *st.s[0]);  \
    auto g = make_future(w, *st.s[1]);  \
    auto h = make_shared(w, *st.s[2]);  \
    co_await EXPR;                      \
    happened(st);                       \
    intact(st, 0, f);                   \
    intact(st, 1, g);                   \
    intact(st, 2, h);                   \
    break;                              \
  }
#define RANGE(TYPE, MK, FN, ...)                                    \
  {                                                                 \
    std::vector<TYPE> v;                                            \
    for (int k = 0; k < st.n; ++k) v.push_back(MK(w, *st.s[k]));    \
    const Backwards<TYPE> r{v};                                     \
    if (st.form == 1) {                                             \
      co_await FN(__VA_ARGS__ r.begin(), r.size());                 \
    } else if (st.form == 2) {                                      \
      co_await FN(__VA_ARGS__ r.begin(), r.end());                  \
    } else if (st.form == 3) {                                      \
      co_await FN(__VA_ARGS__ v.begin(), v.size());                 \
    } else {                                                        \
      co_await FN(__VA_ARGS__ v.begin(), v.end());                  \
    }                                                               \
    happened(st);                                                   \
    for (int k = 0; k < st.n; ++k) intact(st, k, v[std::size_t(k)]); \
    break;                                                          \
  }
        case oAwait:
          ONE(make_future, Await(f))
        case oAwaitOnF:
          ONE(make_future_on, Await(f))
        case oAwaitShared:
          ONE(make_shared, Await(f))
        case oAwaitTask:
          ONE(make_task, Await(f))
        case oAwaitTwo:
          TWO(make_future, make_future_on, Await(f, g))
        case oAwaitMixed:
          MIXED(Await(f, g, h))
        case oAwaitRange:
          RANGE(F, make_future, yaclib::Await, )
        case oAwaitSharedRange:
          RANGE(SF, make_shared, yaclib::Await, )
        case oOnOne:
          ONE(make_future, AwaitOn(e, f))
        case oOnShared:
          ONE(make_shared, AwaitOn(e, f))
        case oOnTwo:
          TWO(make_future, make_future_on, AwaitOn(e, f, g))
        case oOnMixed:
          MIXED(AwaitOn(e, f, g, h))
        case oOnRange:
          RANGE(FO, make_future_on, yaclib::AwaitOn, e, )
        case oOnSharedRange:
          RANGE(SF, make_shared, yaclib::AwaitOn, e, )
        case oStOne:
          ONE(make_future_on, AwaitSticky(f))
        case oStShared:
          ONE(make_shared, AwaitSticky(f))
        case oStTwo:
          TWO(make_future, make_shared, AwaitSticky(f, g))
        case oStMixed:
          MIXED(AwaitSticky(f, g, h))
        case oStRange:
          RANGE(F, make_future, yaclib::AwaitSticky, )
        case oStSharedRange:
          RANGE(SF, make_shared, yaclib::AwaitSticky, )
        case oYield:
          co_await yaclib::kYield;
          break;
        case oYieldFn: {
          auto& x = co_await yaclib::Yield();
          if (cur >= 0) SIM_CHECK(&x == w.e[std::size_t(cur)].Get(), "where", "Yield names another executor");
          break;
        }
        case oCurrent: {
          auto& x = co_await yaclib::CurrentExecutor();
          if (cur >= 0) SIM_CHECK(&x == w.e[std::size_t(cur)].Get(), "where", "CurrentExecutor names another executor");
          break;
        }
        default:
          co_await On(e);
          break;
      }
      w.resumed[i].add(1);
      if (st.op == oOn || is_await_on(st.op)) cur = st.exec;
      if (st.op >= oAwait && st.op <= oAwaitSharedRange) cur = -1;
    }
    if (cur >= 0) SIM_CHECK(top_tag() == w.e[std::size_t(cur)]->tag(), "where", "after %s the coroutine runs in executor %s instead of %s", op_name(st.op), w.ex.name(top_tag()), w.ex.name(w.e[std::size_t(cur)]->tag()));
    if (cur >= 0) SIM_CHECK(&co_await yaclib::CurrentExecutor() == w.e[std::size_t(cur)].Get(), "where", "after %s the coroutine's executor is another one", op_name(st.op));
    w.reached.add(1);
    local.use();
  }
  a.use();
  t.use();
  w.done.set(1);
  const Out o = w.s.out;
  switch (w.s.ret) {
    case qThrow:
      throw Boom{o.id};
    case qPtr:
      co_return boom(o.id);
    case qError:
      co_return Err{o.id};
    case qResult: {
      auto r = make_result<Val, Err>(o);
      co_return std::move(r);
    }
    default:
      co_return Val{o.id};
  }
}

extern template F body<F>(World&, Tok, Frame);
extern template T body<T>(World&, Tok, Frame);
extern template SF body<SF>(World&, Tok, Frame);

}  // namespace c13
