#include "chain.hpp"
namespace kit {
static const auto mk_s = [](Env& env, const Step& st, Out in) -> SFut {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  auto& e = *env.e[std::size_t(st.inner_exec)];
  switch (o.k == 'D' ? 1 + st.inner % 2 : st.inner % 4) {
    case 0: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      fulfil<SP, Val, Err>(std::move(p), o, u32(st.id));
      return f;
    }
    case 1: {
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      env.later(std::move(p), o, u32(st.id));
      return f;
    }
    case 2: {  // somebody else keeps a copy and looks at it later
      auto [f, p] = yaclib::MakeSharedContract<Val, Err>();
      f.SubscribeInline([t = Tok{40}, want = o.k == 'D' ? stopped() : o](const R& r) {
        t.use();
        SIM_CHECK(out(r) == want, "intact", "another observer of the inner shared future sees %c%d", out(r).k, out(r).id);
      });
      env.later(std::move(p), o, u32(st.id));
      return std::move(f);
    }
    default:
      return yaclib::RunShared<Err>(e, [o, t = Tok{41}]() -> R {
               t.use();
               return make_result<Val, Err>(o);
             })
        .On(nullptr);
  }
};
static const auto mk_c = [](Env& env, const Step& st, Out in) -> F {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  return inner_coro(env, &st, o, st.inner % 3 != 0);
};
void attach_shared(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_s); }
void attach_shared(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_s); }
void attach_coro(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_c); }
void attach_coro(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_c); }
}  // namespace kit
