#include "c20_step.hpp"

namespace c20 {
F step(F f, const Step& s, World& w) { return step_impl(std::move(f), s, w, 0); }
}  // namespace c20
