// C10: WhenAny completes once with the right winner for each fail policy: shared by all parts.
#pragma once
#include "when.hpp"

#include <yaclib/async/when_any.hpp>

namespace c10 {
using namespace kit;
using yaclib::FailPolicy;

using F = yaclib::Future<Val, Err>;
using FO = yaclib::FutureOn<Val, Err>;
using SF = yaclib::SharedFuture<Val, Err>;
using FM = yaclib::Future<MVal, Err>;
using FV = yaclib::Future<void, Err>;
using FI = yaclib::Future<int, Err>;

template <typename V>
int value_id(const V& v) {
  return Pay<V>::id(v);
}
inline int value_id(const yaclib::Unit&) { return 0; }
template <typename... T>
int value_id(const std::variant<T...>& v) {
  return std::visit([](const auto& x) { return value_id(x); }, v);
}
template <typename V>
Out any_out(const yaclib::Result<V, Err>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return value(value_id(r.Value()));
    case yaclib::ResultState::Error:
      return error(r.Error().code);
    case yaclib::ResultState::Exception:
      return except(boom_id(r.Exception()));
    default:
      return {'M', 0};
  }
}

// Could input i be the winner?
template <FailPolicy P>
bool may_win(const Ledger& l, int i) {
  if (l.in[i].b == kNever) return false;
  bool any_value = false;
  for (int j = 0; j < l.n; ++j) any_value |= l.is_ok(j);
  if (P == FailPolicy::None) {
    for (int j = 0; j < l.n; ++j) {
      if (j != i && l.before(j, i)) return false;
    }
    return true;
  }
  if (any_value) {
    if (!l.is_ok(i)) return false;
    for (int j = 0; j < l.n; ++j) {
      if (j != i && l.is_ok(j) && l.before(j, i)) return false;
    }
    return true;
  }
  for (int j = 0; j < l.n; ++j) {
    if (l.in[j].b == kNever) return false;  // all have to complete
    if (j == i) continue;
    if (P == FailPolicy::FirstFail && l.before(j, i)) return false;
    if (P == FailPolicy::LastFail && l.before(i, j)) return false;
  }
  return true;
}
template <FailPolicy P>
void judge(const Ledger& l, Out o) {
  static const char* const name[] = {"None", "FirstFail", "LastFail"};
  bool known = false, ok = false;
  for (int i = 0; i < l.n; ++i) {
    if (!(l.outcome(i) == o)) continue;
    known = true;
    ok = ok || may_win<P>(l, i);
  }
  (void)name;
  SIM_CHECK(known, "not-an-input", "WhenAny completed with %c%d, which no input has", o.k, o.id);
  SIM_CHECK(ok, "wrong-winner", "WhenAny completed with %c%d, which must not win under this policy and completion order", o.k, o.id);
}

template <FailPolicy P, typename Call>
void drive(Inputs& in, Call call) {
  Ledger* l = in.led.l;
  const u32 threads = 1 + sim::gen(3);
  const bool before = sim::genp(1, 3);
  const int mode = int(sim::gen(uModes));
  Threads t;
  if (before) in.produce(t, threads);
  l->comb_b = sim::steps();
  auto f = call();
  l->comb_e = sim::steps();
  SIM_CHECK(f.Valid(), "valid", "WhenAny of %d inputs returned an invalid future", l->n);
  using V = typename FutureTypes<decltype(f)>::V_;
  // judged at the end, when it is known how long every completion took
  HostInt k, id;
  auto fn = [&k, &id](yaclib::Result<V, Err>&& r) {
    const Out o = any_out<V>(r);
    k.set(o.k);
    id.set(o.id);
  };
  const u64 limit = kNever;
  (void)limit;
  OutputOf<V, Err, decltype(fn)> o{std::move(f), mode, fn, *in.e, l};
  o.attach();
  if (sim::genp(1, 3)) in.look(t, false);
  if (!before) in.produce(t, threads);
  bool strong = false;
  if (mode == uLate || sim::genp(1, 2)) {
    t.join();
    strong = true;
    for (int i = 0; i < l->n; ++i) strong = strong && l->in[i].e != kNever;
  }
  o.finish(strong);
  t.join();
  in.look(t, true);
  if (mode != uDrop) {
    // whoever had not even begun when the output was observed cannot have won
    Out got{char(k.get()), id.get()};
    bool possible = false;
    for (int i = 0; i < l->n; ++i) possible |= l->outcome(i) == got && l->in[i].b != kNever && l->in[i].b <= l->out_step;
    SIM_CHECK(possible, "early", "WhenAny delivered %c%d before an input with this outcome completed", got.k, got.id);
    in.ex.shutdown();
    judge<P>(*l, got);
  }
  in.ex.shutdown();
}

template <FailPolicy P, typename FT>
void ranged() {
  {
    Inputs in;
    std::vector<FT> v;
    int root[Ledger::kMax];
    for (int i = 0; i < Ledger::kMax; ++i) root[i] = i;
    const u32 n = amount(5, 36);
    const u32 bias = sim::gen(3);  // mostly values, mixed, only failures
    for (u32 i = 0; i < n; ++i) {
      if constexpr (InTypes<FT>::kind == 2) {
        if (i > 0 && sim::genp(1, 4)) {
          int j = int(sim::gen(i));
          const std::size_t from = std::size_t(j);
          j = root[j];
          root[i] = j;
          v.push_back(v[from]);
          const int k = in.led->add(in.led->in[j].o);
          in.led->in[k] = in.led->in[j];
          for (auto& w : in.todo) {
            if (w.input == j) {
              Ledger* l = in.led.l;
              w.set = [l, j, k, f = std::move(w.set)] {
                l->begin(k);
                f();
                l->in[j].b = l->in[k].b;
                l->end(k);
                l->in[j].e = l->in[k].e;
              };
            }
          }
          continue;
        }
      }
      const int id = 10 * int(i) + 1;
      Out o = bias == 0 ? value(id) : random_out(true);
      o.id = id;
      if (bias == 2 && o.k == 'V') o = sim::genp(1, 2) ? error(id) : except(id);
      v.push_back(in.make<FT>(o, int(sim::gen(3))));
    }
    const bool by_count = sim::genp(1, 2), anywhere = sim::genp(1, 3);
    if (anywhere) std::reverse(v.begin(), v.end());
    const Backwards<FT> r{v};
    drive<P>(in, [&] {
      if (anywhere) return by_count ? yaclib::WhenAny<P>(r.begin(), r.size()) : yaclib::WhenAny<P>(r.begin(), r.end());
      return by_count ? yaclib::WhenAny<P>(v.begin(), v.size()) : yaclib::WhenAny<P>(v.begin(), v.end());
    });
  }
  check_no_live("WhenAny");
}
template <FailPolicy P, typename... FT>
void packed() {
  {
    Inputs in;
    const u32 bias = sim::gen(3);
    auto one = [&](auto tag) {
      using T = typename decltype(tag)::type;
      const int id = 10 * in.led->n + 1;
      Out o = bias == 0 ? value(id) : random_out(true);
      o.id = id;
      if (bias == 2 && o.k == 'V') o = sim::genp(1, 2) ? error(id) : except(id);
      return in.make<T>(o, int(sim::gen(3)));
    };
    std::tuple<FT...> t{one(std::common_type<FT>{})...};
    drive<P>(in, [&] { return std::apply([](auto&... f) { return yaclib::WhenAny<P>(std::move(f)...); }, t); });
  }
  check_no_live("WhenAny");
}

// Completion at the right moment, one step at a time on this thread.
template <FailPolicy P, typename FT>
void stepwise() {
  {
    Inputs in;
    std::vector<FT> v;
    const u32 n = 2 + sim::gen(3);
    for (u32 i = 0; i < n; ++i) {
      const int id = 10 * int(i) + 1;
      v.push_back(in.make<FT>(sim::genp(1, 3) ? value(id) : sim::genp(1, 2) ? error(id) : except(id), 1));
    }
    auto f = yaclib::WhenAny<P>(v.begin(), v.end());
    Ledger& l = *in.led;
    l.comb_b = 0;
    l.comb_e = 0;
    u32 done = 0;
    int winner = -1, first_failure = -1, last = -1;
    while (!in.todo.empty()) {
      const u32 k = sim::gen(u32(in.todo.size()));
      auto w = std::move(in.todo[k]);
      in.todo.erase(in.todo.begin() + k);
      SIM_CHECK(f.Ready() == (winner >= 0), winner >= 0 ? "late" : "early", "WhenAny is %scomplete after %u of %u inputs", f.Ready() ? "" : "not ", done, n);
      if (sim::genp(1, 4)) {
        Threads t;
        t.go([&] { w.set(); });
      } else {
        w.set();
      }
      ++done;
      last = w.input;
      if (winner < 0) {
        if (P == FailPolicy::None || l.is_ok(w.input)) winner = w.input;
        if (first_failure < 0) first_failure = w.input;
        if (winner < 0 && done == n) winner = P == FailPolicy::FirstFail ? first_failure : last;
      }
    }
    SIM_CHECK(f.Ready(), "late", "every input has completed but WhenAny is not complete");
    auto r = std::move(f).Touch();
    using V = typename FutureTypes<decltype(f)>::V_;
    const Out o = any_out<V>(r);
    SIM_CHECK(o == l.outcome(winner), "wrong-winner", "WhenAny completed with %c%d, the winner is input %d with %c%d", o.k, o.id, winner, l.outcome(winner).k, l.outcome(winner).id);
    Threads t;
    in.look(t, true);
    in.ex.shutdown();
  }
  check_no_live("WhenAny");
}

constexpr auto kLast = FailPolicy::LastFail;
constexpr auto kFirst = FailPolicy::FirstFail;
constexpr auto kNone = FailPolicy::None;
}  // namespace c10
