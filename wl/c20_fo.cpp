#include "c20_step.hpp"

namespace c20 {
FO step(FO f, const Step& s, World& w) { return step_impl(std::move(f), s, w, 0); }
}  // namespace c20
