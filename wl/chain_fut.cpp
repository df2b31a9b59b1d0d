#include "chain.hpp"
namespace kit {
static const auto mk_f = [](Env& env, const Step& st, Out in) -> F {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  auto& e = *env.e[std::size_t(st.inner_exec)];
  switch (o.k == 'D' ? 1 + st.inner % 2 : st.inner % 4) {
    case 0:
      return yaclib::MakeFuture<Val, Err>(make_result<Val, Err>(o));
    case 1: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      env.later(std::move(p), o, u32(st.id));
      return std::move(f);
    }
    case 2: {
      auto [f, p] = yaclib::MakeContract<Val, Err>();
      env.later(std::move(p), o, u32(st.id));
      return std::move(f).ThenInline([t = Tok{30}](R&& r) {
        t.use();
        return std::move(r);
      });
    }
    default:
      return yaclib::Run<Err>(e, [o, t = Tok{31}]() -> R {
               t.use();
               return make_result<Val, Err>(o);
             })
        .On(nullptr);
  }
};
static const auto mk_fo = [](Env& env, const Step& st, Out in) -> FO {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  auto& e = *env.e[std::size_t(st.inner_exec)];
  auto g = [o, t = Tok{32}]() -> R {
    t.use();
    return make_result<Val, Err>(o);
  };
  switch (st.inner % 3) {
    case 0:
      return yaclib::Run<Err>(e, std::move(g));
    case 1:
      return yaclib::MakeFuture<Val, Err>(make_result<Val, Err>(o)).Then(e, [t = Tok{33}](R&& r) {
        t.use();
        return std::move(r);
      });
    default: {
      auto [f, p] = yaclib::MakeContractOn<Val, Err>(e);
      env.later(std::move(p), o, u32(st.id));
      return std::move(f);
    }
  }
};
void attach_future(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_f); }
void attach_future(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_f); }
void attach_future_on(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_fo); }
void attach_future_on(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_fo); }
}  // namespace kit
