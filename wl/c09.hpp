// C09: WhenAll / Join complete once, at the right moment, with inputs in input order: what all parts share.
#pragma once
#include "when.hpp"

#include <yaclib/async/join.hpp>
#include <yaclib/async/when_all.hpp>

namespace c09 {
using namespace kit;
using yaclib::FailPolicy;

using F = yaclib::Future<Val, Err>;
using FO = yaclib::FutureOn<Val, Err>;
using SF = yaclib::SharedFuture<Val, Err>;
using FM = yaclib::Future<MVal, Err>;
using FV = yaclib::Future<void, Err>;
using SV = yaclib::SharedFuture<void, Err>;

// The combinator reported failure o although the policy is FirstFail: is it an allowed winner?
inline void first_fail(const Ledger& l, Out o) {
  bool any = false, allowed = false;
  for (int i = 0; i < l.n; ++i) {
    if (l.is_ok(i)) continue;
    any = true;
    if (!(l.outcome(i) == o)) continue;
    if (l.in[i].b == kNever) continue;  // has not even begun to complete
    bool later = false;
    for (int j = 0; j < l.n; ++j) {
      if (j != i && !l.is_ok(j) && l.before(j, i)) later = true;
    }
    if (!later) allowed = true;
  }
  SIM_CHECK(any, "wrong-failure", "the combinator failed with %c%d although no input fails", o.k, o.id);
  SIM_CHECK(allowed, "wrong-failure", "the combinator failed with %c%d, which is not the failure that came first", o.k, o.id);
}
inline void all_began(const Ledger& l, const char* what) {
  for (int i = 0; i < l.n; ++i) SIM_CHECK(l.in[i].b != kNever, "early", "%s completed although input %d has not completed", what, i);
}
inline bool any_fail(const Ledger& l) {
  for (int i = 0; i < l.n; ++i) {
    if (!l.is_ok(i)) return true;
  }
  return false;
}

// ---- judging the output ----
template <typename V>
void judge_element(const Ledger& l, int i, const V& v) {
  if constexpr (std::is_same_v<V, yaclib::Unit>) {
    SIM_CHECK(l.is_ok(i), "element", "input %d failed but the combinator reports success", i);
  } else if constexpr (yaclib::is_result_v<V>) {
    const Out o = out(v);
    SIM_CHECK(o == l.outcome(i), "element", "element %d is %c%d, its input completed with %c%d", i, o.k, o.id, l.outcome(i).k, l.outcome(i).id);
  } else {
    const Out o = value(Pay<V>::id(v));
    SIM_CHECK(o == l.outcome(i), "element", "element %d is %c%d, its input completed with %c%d", i, o.k, o.id, l.outcome(i).k, l.outcome(i).id);
  }
}
template <typename T>
void judge_value(const Ledger& l, const std::vector<T>& v) {
  SIM_CHECK(int(v.size()) == l.n, "size", "%d inputs but %d elements", l.n, int(v.size()));
  for (int i = 0; i < l.n; ++i) judge_element(l, i, v[std::size_t(i)]);
}
template <typename... T>
void judge_value(const Ledger& l, const std::tuple<T...>& v) {
  SIM_CHECK(int(sizeof...(T)) == l.n, "size", "%d inputs but %d elements", l.n, int(sizeof...(T)));
  int i = 0;
  std::apply([&](const auto&... x) { (judge_element(l, i++, x), ...); }, v);
}
inline void judge_value(const Ledger&, const yaclib::Unit&) {}

template <FailPolicy P, typename V>
void judge(const Ledger& l, yaclib::Result<V, Err>&& r) {
  if (r) {
    all_began(l, "the combinator");
    if (P == FailPolicy::FirstFail) SIM_CHECK(!any_fail(l), "missed-failure", "an input failed but the combinator reports success");
    judge_value(l, std::as_const(r).Value());
  } else {
    SIM_CHECK(P != FailPolicy::None, "wrong-failure", "the combinator failed under FailPolicy::None");
    const Out o = r.State() == yaclib::ResultState::Error ? error(std::as_const(r).Error().code) : r.State() == yaclib::ResultState::Exception ? except(boom_id(std::as_const(r).Exception())) : Out{'M', 0};
    first_fail(l, o);
  }
}

// Runs the rest once the combinator exists. `call` performs the combinator call.
template <FailPolicy P, typename Call>
void drive(Inputs& in, Call call) {
  Ledger* l = in.led.l;
  const u32 threads = 1 + sim::gen(3);
  const bool before = sim::genp(1, 3);  // inputs start to complete before the combinator is built
  const int mode = int(sim::gen(uModes));
  Threads t;
  if (before) in.produce(t, threads);
  l->comb_b = sim::steps();
  auto f = call();
  l->comb_e = sim::steps();
  SIM_CHECK(f.Valid(), "valid", "the combinator of %d inputs returned an invalid future", l->n);
  using V = typename FutureTypes<decltype(f)>::V_;
  auto fn = [l](yaclib::Result<V, Err>&& r) { judge<P, V>(*l, std::move(r)); };
  OutputOf<V, Err, decltype(fn)> o{std::move(f), mode, fn, *in.e, l};
  o.attach();
  if (sim::genp(1, 3)) in.look(t, false);
  if (!before) in.produce(t, threads);
  const bool wait = mode == uLate || sim::genp(1, 2);
  bool strong = false;
  if (wait) {
    t.join();
    // inputs run by an executor may still be on their way
    strong = true;
    for (int i = 0; i < l->n; ++i) strong = strong && l->in[i].e != kNever;
  }
  o.finish(strong);
  t.join();
  in.look(t, true);
  in.ex.shutdown();
}

template <FailPolicy P, typename FT, bool kJoin>
void ranged() {
  {
    Inputs in;
    std::vector<FT> v;
    int root[Ledger::kMax];
    for (int i = 0; i < Ledger::kMax; ++i) root[i] = i;
    const u32 n = amount(5, 36);
    const bool may_fail = sim::genp(3, 5);
    for (u32 i = 0; i < n; ++i) {
      if constexpr (InTypes<FT>::kind == 2) {
        if (i > 0 && sim::genp(1, 4)) {  // the same shared state twice
          int j = int(sim::gen(i));
          const std::size_t from = std::size_t(j);
          j = root[j];
          root[i] = j;
          v.push_back(v[from]);
          const int k = in.led->add(in.led->in[j].o);
          // completes together with j
          in.led->in[k] = in.led->in[j];
          for (auto& w : in.todo) {
            if (w.input == j) {
              Ledger* l = in.led.l;
              w.set = [l, j, k, f = std::move(w.set)] {
                l->begin(k);
                f();
                l->in[j].b = l->in[k].b;
                l->end(k);
                l->in[j].e = l->in[k].e;
              };
            }
          }
          continue;
        }
      }
      v.push_back(in.make_random<FT>(may_fail));
    }
    const bool by_count = sim::genp(1, 2), anywhere = sim::genp(1, 3);
    if (anywhere) std::reverse(v.begin(), v.end());
    const Backwards<FT> r{v};
    drive<P>(in, [&] {
      if (anywhere) {
        if constexpr (kJoin) {
          return by_count ? yaclib::Join<P>(r.begin(), r.size()) : yaclib::Join<P>(r.begin(), r.end());
        } else {
          return by_count ? yaclib::WhenAll<P>(r.begin(), r.size()) : yaclib::WhenAll<P>(r.begin(), r.end());
        }
      }
      if constexpr (kJoin) {
        return by_count ? yaclib::Join<P>(v.begin(), v.size()) : yaclib::Join<P>(v.begin(), v.end());
      } else {
        return by_count ? yaclib::WhenAll<P>(v.begin(), v.size()) : yaclib::WhenAll<P>(v.begin(), v.end());
      }
    });
  }
  check_no_live("combinator");
}

template <FailPolicy P, bool kJoin, typename... FT>
void packed() {
  {
    Inputs in;
    const bool may_fail = sim::genp(3, 5);
    std::tuple<FT...> t{in.make_random<FT>(may_fail)...};
    drive<P>(in, [&] {
      return std::apply(
        [](auto&... f) {
          if constexpr (kJoin) {
            return yaclib::Join<P>(std::move(f)...);
          } else {
            return yaclib::WhenAll<P>(std::move(f)...);
          }
        },
        t);
    });
  }
  check_no_live("combinator");
}


constexpr auto kFF = FailPolicy::FirstFail;
constexpr auto kNone = FailPolicy::None;
}  // namespace c09
