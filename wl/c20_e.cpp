#include "c20_step.hpp"

namespace c20 {
FO step_on(F f, const Step& s, World& w) { return step_impl(std::move(f), s, w, OnE{}); }
}  // namespace c20
