// Generated pipelines over Result<Val, Err>, eager (Future) and lazy (Task), with a sequential reference interpreter.
#pragma once
#include "consume.hpp"

#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>

#include <deque>
#include <optional>

namespace kit {

using F = yaclib::Future<Val, Err>;
using FO = yaclib::FutureOn<Val, Err>;
using T = yaclib::Task<Val, Err>;
using SFut = yaclib::SharedFuture<Val, Err>;
using R = yaclib::Result<Val, Err>;
using P = yaclib::Promise<Val, Err>;
using SP = yaclib::SharedPromise<Val, Err>;

// ---- plan ------------------------------------------------------------------------------------------------
enum Attach : int { aInline, aThenE, aThen, aKinds };  // aThen only where an executor is inherited
enum Arg : int { gVal, gResult, gErr, gExc, gValConst, gResultConst, gArgs };
enum Ret : int { rVal, rResult, rVoidPair, rFuture, rFutureOn, rShared, rTask, rCoro, rRets };
constexpr int kInner = 9;

struct Step {
  int attach = aInline;
  int exec = 0;  // for aThenE
  int arg = gVal;
  int ret = rVal;
  char outk = 'V';  // what the callback produces: V E X(result) T(throws) D(inner promise dropped)
  int inner = 0;    // variant of the inner asynchronous operation
  int inner_exec = 0;
  int id = 0;  // slot and mixing constant
};
enum Src : int { sReady, sContract, sContractOn, sRun, sAsyncContract, sCoro, sShared, sSrcs };
enum LSrc : int { lReady, lSchedule, lScheduleInline, lLazyContract, lLazyContractOn, lCoro, lSrcs };
constexpr int kMaxSteps = 24;
struct Plan {
  int src = 0;
  int src_exec = 0;
  Out src_out;
  int n = 0;
  Step s[kMaxSteps];
  int delay = 0;
  u32 form = 0;
  int start_exec = -1;  // lazy: started on this executor (ToFuture(e), Detach(e)) instead of the head's own
  bool cancel = false;  // lazy: never started, cancelled
};

inline int mixid(int a, int b) { return (a * 31 + b * 7 + 11) % 9973 + 1; }

// What the reference interpreter predicts.
struct Expect {
  Out final;
  int calls[kMaxSteps + 2] = {};    // callback of step i is invoked that often
  Out input[kMaxSteps + 2];       // with this input
  int on[kMaxSteps + 2];          // on this executor tag (-1: no claim)
  int submits[16] = {}; // submissions per executor tag
};

// ---- environment ---------------------------------------------------------------------------------------------
struct Env {
  Execs ex;
  std::vector<ProxyPtr> e;
  Plan plan;
  Slots slots{kMaxSteps + 2};
  HostInt at[kMaxSteps + 2];       // executor tag on which step i ran
  HostInt wrong;       // first step that saw the wrong input (0: none)
  HostInt order;       // last step that ran
  HostInt disorder;
  HostInt started{1};  // lazy: set when the pipeline is started
  HostInt early;
  HostInt src_runs;    // lazy: invocations of the head's function

  // inner promises are fulfilled by another thread
  std::mutex m;
  std::condition_variable cv;
  struct Todo {
    P p;
    SP sp;
    Out o;
    u32 form;
  };
  std::deque<Todo> todo;
  bool closing = false;
  Threads th;

  explicit Env(u32 exec_mask = kLiveKinds, int execs = 2, const int* accept = nullptr);
  ~Env();
  void close();  // stops the fulfilling thread
  void later(P p, Out o, u32 form);
  void later(SP p, Out o, u32 form);

  // the callback of step st has been entered with input in
  void enter(const Step& st, Out in);
  Out produce(const Step& st, Out in) const {
    if (st.outk == 'V') return value(mixid(in.k == 'V' ? in.id : in.id + 100, st.id));
    if (st.outk == 'E') return error(mixid(in.id, st.id) % 50 + 1);
    if (st.outk == 'D') return Out{'D', 0};
    return except(mixid(in.id, st.id) % 50 + 1);
  }
};

Plan random_plan(Env& env, bool lazy, int max_steps, u32 ret_mask = (1u << rRets) - 1);
Expect interpret(const Env& env, const Plan& p, bool lazy, const int* accept);  // accept[exec]: jobs it takes before it refuses (-1: all)
std::string describe(const Plan& p, bool lazy);

// ---- building ----------------------------------------------------------------------------------------------
struct Eager {
  F f;
  FO fo;
  bool on = false;
  bool valid() const { return on ? fo.Valid() : f.Valid(); }
};
struct Lazy {
  T t;
};

template <typename S, typename Fn>
void put(S& s, const Step& st, Env& env, Fn&& fn) {
  auto& e = *env.e[std::size_t(st.exec)];
  if constexpr (std::is_same_v<S, Lazy>) {
    auto t = std::move(s.t);
    switch (st.attach) {
      case aInline:
        s.t = std::move(t).ThenInline(std::forward<Fn>(fn));
        break;
      case aThenE:
        s.t = std::move(t).Then(e, std::forward<Fn>(fn));
        break;
      default:
        s.t = std::move(t).Then(std::forward<Fn>(fn));
        break;
    }
  } else {
    if (!s.on) {
      auto f = std::move(s.f);
      if (st.attach == aInline) {
        s.f = std::move(f).ThenInline(std::forward<Fn>(fn));
      } else {
        s.fo = std::move(f).Then(e, std::forward<Fn>(fn));
        s.on = true;
      }
    } else {
      auto f = std::move(s.fo);
      switch (st.attach) {
        case aInline:
          s.fo = std::move(f).ThenInline(std::forward<Fn>(fn));
          break;
        case aThenE:
          s.fo = std::move(f).Then(e, std::forward<Fn>(fn));
          break;
        default:
          s.fo = std::move(f).Then(std::forward<Fn>(fn));
          break;
      }
    }
  }
}

// make(env, st, in) produces the return value of the callback
template <typename S, typename Make>
void attach_args(S& s, const Step& st, Env& env, Make make) {
  const Step* ps = &st;
  Env* pe = &env;
  Tok tok{10 + st.id};
  switch (st.arg) {
    case gVal:
      put(s, st, env, [=, t = std::move(tok)](Val v) {
        t.use();
        const Out in = value(v.id());
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
    case gResult:
      put(s, st, env, [=, t = std::move(tok)](R&& r) {
        t.use();
        const Out in = out(r);
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
    case gErr:
      put(s, st, env, [=, t = std::move(tok)](Err x) {
        t.use();
        const Out in = error(x.code);
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
    case gExc:
      put(s, st, env, [=, t = std::move(tok)](std::exception_ptr x) {
        t.use();
        const Out in = except(boom_id(x));
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
#ifdef CHAIN_CONST_ARGS
    case gValConst:
      put(s, st, env, [=, t = std::move(tok)](const Val& v) mutable {
        t.use();
        const Out in = value(v.id());
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
    case gResultConst:
      put(s, st, env, [=, t = std::move(tok)](const R& r) mutable {
        t.use();
        const Out in = out(r);
        pe->enter(*ps, in);
        return make(*pe, *ps, in);
      });
      break;
#endif
  }
}

inline void throw_if(const Step& st, Out o) {
  if (st.outk == 'T') {
    sim::count(sim::kThrow);
    throw Boom{o.id};
  }
}

#define CHAIN_DECL(name)                            \
  void name(Eager&, const Step&, Env&);             \
  void name(Lazy&, const Step&, Env&);
CHAIN_DECL(attach_val)
CHAIN_DECL(attach_result)
CHAIN_DECL(attach_void)
CHAIN_DECL(attach_future)
CHAIN_DECL(attach_future_on)
CHAIN_DECL(attach_shared)
CHAIN_DECL(attach_task)
CHAIN_DECL(attach_coro)

void source(Eager& s, Env& env);
void source(Lazy& s, Env& env);
template <typename S>
void attach_step(S& s, const Step& st, Env& env);
extern template void attach_step<Eager>(Eager&, const Step&, Env&);
extern template void attach_step<Lazy>(Lazy&, const Step&, Env&);

T make_inner_task(Env& env, const Step& st, Out o);
F inner_coro(Env& env, const Step* st, Out o, bool eager_on);
T inner_task_coro(Env& env, const Step* st, Out o, int how);

}  // namespace kit
