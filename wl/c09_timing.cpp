// C09: the moment of completion.
#include "c09.hpp"

namespace {
using namespace c09;

// The failure is delivered while the other inputs are still pending.
template <typename FT, bool kJoin>
void prompt_range() {
  {
    Inputs in;
    std::vector<FT> v;
    const u32 n = 2 + sim::gen(3);
    const u32 bad = sim::gen(n);
    for (u32 i = 0; i < n; ++i) {
      const int id = 10 * int(i) + 1;
      v.push_back(in.make<FT>(i == bad ? (sim::genp(1, 2) ? error(id) : sim::genp(1, 2) ? except(id) : Out{'D', 0}) : sim::genp(1, 3) ? error(id + 1) : value(id), 1));
    }
    std::function<void()> set_bad;
    for (std::size_t k = 0; k < in.todo.size(); ++k) {
      if (in.todo[k].input == int(bad)) {
        set_bad = std::move(in.todo[k].set);
        in.todo.erase(in.todo.begin() + std::ptrdiff_t(k));
        break;
      }
    }
    const bool first = sim::genp(1, 2);
    if (first) set_bad();
    in.led->comb_b = sim::steps();
    auto f = [&] {
      if constexpr (kJoin) {
        return yaclib::Join<kFF>(v.begin(), v.size());
      } else {
        return yaclib::WhenAll<kFF>(v.begin(), v.size());
      }
    }();
    in.led->comb_e = sim::steps();
    if (!first) {
      SIM_CHECK(!f.Ready(), "early", "the combinator completed although no input has completed");
      Threads t;
      t.go([&] { set_bad(); });
      if (sim::genp(1, 2)) Wait(f);
    }
    SIM_CHECK(f.Ready(), "late", "an input failed but the combinator under FirstFail is not complete");
    auto r = std::move(f).Touch();
    SIM_CHECK(!r, "missed-failure", "an input failed but the combinator reports success");
    const Out o = r.State() == yaclib::ResultState::Error ? error(std::as_const(r).Error().code) : except(boom_id(std::as_const(r).Exception()));
    SIM_CHECK(o == in.led->outcome(int(bad)), "wrong-failure", "the combinator failed with %c%d, the only completed input with %c%d", o.k, o.id, in.led->outcome(int(bad)).k, in.led->outcome(int(bad)).id);
    set_bad = nullptr;
    Threads t;
    in.produce(t, 1 + sim::gen(2));
    t.join();
    in.ex.shutdown();
  }
  check_no_live("combinator");
}
// Nothing fails: not complete while the last input is pending, complete the moment it is set.
template <FailPolicy P, typename FT, bool kJoin>
void exact_range() {
  {
    Inputs in;
    std::vector<FT> v;
    const u32 n = 1 + sim::gen(4);
    for (u32 i = 0; i < n; ++i) {
      const int id = 10 * int(i) + 1;
      v.push_back(in.make<FT>(P == kNone && sim::genp(1, 3) ? error(id) : value(id), 1));
    }
    auto f = [&] {
      if constexpr (kJoin) {
        return yaclib::Join<P>(v.begin(), v.size());
      } else {
        return yaclib::WhenAll<P>(v.begin(), v.size());
      }
    }();
    const u32 last = sim::gen(n);
    auto set_last = std::move(in.todo[last].set);
    in.todo.erase(in.todo.begin() + last);
    {
      Threads t;
      in.produce(t, 1 + sim::gen(2));
    }
    SIM_CHECK(!f.Ready(), "early", "the combinator completed although an input is pending");
    set_last();
    set_last = nullptr;
    SIM_CHECK(f.Ready(), "late", "the last input completed but the combinator is not complete");
    in.led->comb_e = sim::steps();
    auto r = std::move(f).Touch();
    using V = typename FutureTypes<decltype(f)>::V_;
    judge<P, V>(*in.led, std::move(r));
    in.ex.shutdown();
  }
  check_no_live("combinator");
}
void timing() {
  switch (sim::gen(9)) {
    case 0:
      return prompt_range<F, false>();
    case 1:
      return prompt_range<SF, false>();
    case 2:
      return prompt_range<FV, false>();
    case 3:
      return prompt_range<F, true>();
    case 4:
      return exact_range<kFF, F, false>();
    case 5:
      return exact_range<kNone, F, false>();
    case 6:
      return exact_range<kFF, FV, false>();
    case 7:
      return exact_range<kNone, F, true>();
    default: {
      std::vector<F> v;
      std::vector<SF> s;
      SIM_CHECK(!yaclib::WhenAll(v.begin(), v.end()).Valid(), "empty", "WhenAll of nothing is a valid future");
      SIM_CHECK(!yaclib::WhenAll<kNone>(v.begin(), v.size()).Valid(), "empty", "WhenAll of nothing is a valid future");
      SIM_CHECK(!yaclib::WhenAll(s.begin(), s.size()).Valid(), "empty", "WhenAll of nothing is a valid future");
      SIM_CHECK(!yaclib::Join(v.begin(), v.size()).Valid(), "empty", "Join of nothing is a valid future");
      return exact_range<kNone, SF, true>();
    }
  }
}

sim::Workload e{"c09/timing", "C09", timing, sim::kAll, 2};
}  // namespace
