// One pipeline step of any shape on a Future, FutureOn or Task.
#include "c20.hpp"

namespace c20 {

template <typename Src, typename Fn>
auto attach(Src f, const Step& s, World& w, Fn&& fn) {
  auto& e = *w.e[s.exec];
  if constexpr (std::is_same_v<Src, F>) {
    return std::move(f).ThenInline(std::forward<Fn>(fn));
  } else if constexpr (std::is_same_v<Src, FO>) {
    if (s.attach == 0) return std::move(f).ThenInline(std::forward<Fn>(fn));
    if (s.attach == 1) return std::move(f).Then(e, std::forward<Fn>(fn));
    return std::move(f).Then(std::forward<Fn>(fn));
  } else {
    if (s.attach == 0) return std::move(f).ThenInline(std::forward<Fn>(fn));
    if (s.attach == 1) return std::move(f).Then(e, std::forward<Fn>(fn));
    return std::move(f).Then(std::forward<Fn>(fn));
  }
}
struct OnE {};  // attach a Future with Then(e)
template <typename Src, typename How, typename Fn>
auto put(Src f, const Step& s, World& w, How, Fn&& fn) {
  if constexpr (std::is_same_v<How, OnE>) {
    return std::move(f).Then(*w.e[s.exec], std::forward<Fn>(fn));
  } else {
    return attach(std::move(f), s, w, std::forward<Fn>(fn));
  }
}

template <typename Src, typename How, typename Make>
auto with_arg(Src f, const Step& s, World& w, How h, Make make) {
  switch (s.arg) {
    case 0:
      return put(std::move(f), s, w, h, [c = Cap{w}, make](int) { return make(); });
    case 1:
      return put(std::move(f), s, w, h, [c = Fat<320>{w}, make](R&&) { return make(); });
    case 2:
      return put(std::move(f), s, w, h, [c = Fat<40>{w}, make](E0) { return make(); });
    default:
      return put(std::move(f), s, w, h, [c = Cap{w}, make](std::exception_ptr) { return make(); });
  }
}

template <typename Src, typename How>
auto with_ret(Src f, const Step& s, World& w, How h) {
  World* pw = &w;
  const u32 k = s.k;
  auto* e = w.e[s.exec].Get();
  switch (s.ret) {
    case nInt:
      return with_arg(std::move(f), s, w, h, [] { return 5; });
    case nResult:
      return with_arg(std::move(f), s, w, h, [k] { return outcome(k); });
    case nThrow:
      return with_arg(std::move(f), s, w, h, []() -> int {
        sim::count(sim::kThrow);
        throw 6;
      });
    case nReady:
      return with_arg(std::move(f), s, w, h, [pw, k]() -> F {
        pw->allow(1);
        return yaclib::MakeFuture<int, E0>(outcome(k));
      });
    case nPending:
      return with_arg(std::move(f), s, w, h, [pw, k]() -> F {
        pw->allow(1);
        auto [g, p] = yaclib::MakeContract<int, E0>();
        pw->hand.give(std::move(p), k);
        return std::move(g);
      });
    case nRun:
      return with_arg(std::move(f), s, w, h, [pw, e, k]() -> FO {
        pw->allow(1);
        return yaclib::Run<E0>(*e, [k, c = Cap{*pw}] { return outcome(k); });
      });
    case nShared:
      return with_arg(std::move(f), s, w, h, [pw, k]() -> SF {
        pw->allow(1);
        auto [g, p] = yaclib::MakeSharedContract<int, E0>();
        pw->hand.give(std::move(p), k);
        return std::move(g);
      });
    case nTask:
      return with_arg(std::move(f), s, w, h, [pw, k]() -> T {
        pw->allow(1);
        return yaclib::MakeTask<int, E0>(outcome(k));
      });
    case nSchedule:
      return with_arg(std::move(f), s, w, h, [pw, e, k]() -> T {
        pw->allow(1);
        return yaclib::Schedule<E0>(*e, [k, c = Cap{*pw}] { return outcome(k); });
      });
    default:
      return with_arg(std::move(f), s, w, h, [pw, e, k]() -> F {
        pw->allow(1);  // the coroutine frame
        return inner_coro(*pw, *e, k, Cap{*pw});
      });
  }
}

template <typename Src, typename How>
auto step_impl(Src f, const Step& s, World& w, How h) {
  w.allow(1);
  return with_ret(std::move(f), s, w, h);
}
}  // namespace c20
