#define CHAIN_CONST_ARGS
#include "chain.hpp"
namespace kit {
static const auto mk_val = [](Env& env, const Step& st, Out in) {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  return Val{o.id};
};
static const auto mk_res = [](Env& env, const Step& st, Out in) {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  return make_result<Val, Err>(o);
};
void attach_val(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_val); }
void attach_val(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_val); }
void attach_result(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_res); }
void attach_result(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_res); }

// Val -> void, then () -> Val
template <typename A>
static auto first_cb(const Step* ps, Env* pe, Out* slot) {
  return [=, t = Tok{20}](A a) {
    t.use();
    Out in;
    if constexpr (std::is_same_v<A, Val>) {
      in = value(a.id());
    } else {
      in = out(a);
    }
    pe->enter(*ps, in);
    const Out o = pe->produce(*ps, in);
    throw_if(*ps, o);
    *slot = o;
  };
}
struct Second {
  std::unique_ptr<Out> keep;
  Tok t{21};
  Val operator()() {
    t.use();
    return Val{keep->id};
  }
};
template <typename A>
static void voidp(Eager& s, const Step& st, Env& env) {
  auto keep = std::make_unique<Out>();
  auto cb = first_cb<A>(&st, &env, keep.get());
  auto& e = *env.e[std::size_t(st.exec)];
  Second second{std::move(keep)};
  if (!s.on && st.attach == aInline) {
    s.f = std::move(s.f).ThenInline(std::move(cb)).ThenInline(std::move(second));
  } else if (!s.on || st.attach == aThenE) {
    s.fo = (s.on ? std::move(s.fo).Then(e, std::move(cb)) : std::move(s.f).Then(e, std::move(cb))).ThenInline(std::move(second));
    s.on = true;
  } else if (st.attach == aInline) {
    s.fo = std::move(s.fo).ThenInline(std::move(cb)).ThenInline(std::move(second));
  } else {
    s.fo = std::move(s.fo).Then(std::move(cb)).ThenInline(std::move(second));
  }
}
template <typename A>
static void voidp(Lazy& s, const Step& st, Env& env) {
  auto keep = std::make_unique<Out>();
  auto cb = first_cb<A>(&st, &env, keep.get());
  auto& e = *env.e[std::size_t(st.exec)];
  Second second{std::move(keep)};
  if (st.attach == aInline) {
    s.t = std::move(s.t).ThenInline(std::move(cb)).ThenInline(std::move(second));
  } else if (st.attach == aThenE) {
    s.t = std::move(s.t).Then(e, std::move(cb)).ThenInline(std::move(second));
  } else {
    s.t = std::move(s.t).Then(std::move(cb)).ThenInline(std::move(second));
  }
}
void attach_void(Eager& s, const Step& st, Env& env) { st.arg == gVal ? voidp<Val>(s, st, env) : voidp<R>(s, st, env); }
void attach_void(Lazy& s, const Step& st, Env& env) { st.arg == gVal ? voidp<Val>(s, st, env) : voidp<R>(s, st, env); }
}  // namespace kit
