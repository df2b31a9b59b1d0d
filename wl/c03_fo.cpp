#include "c03_end.hpp"

namespace c03 {
void let_go(FO f, Env& env, u32 how, Threads& th) { let_go_impl(std::move(f), env, how, th); }
}  // namespace c03
