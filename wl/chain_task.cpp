#include "chain.hpp"
namespace kit {
static const auto mk_t = [](Env& env, const Step& st, Out in) -> T {
  const Out o = env.produce(st, in);
  throw_if(st, o);
  return make_inner_task(env, st, o);
};
void attach_task(Eager& s, const Step& st, Env& env) { attach_args(s, st, env, mk_t); }
void attach_task(Lazy& s, const Step& st, Env& env) { attach_args(s, st, env, mk_t); }
}  // namespace kit
