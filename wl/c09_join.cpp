// C09: Join.
#include "c09.hpp"

namespace {
using namespace c09;

void join() {
  switch (sim::gen(6)) {
    case 0:
      return ranged<kFF, F, true>();
    case 1:
      return ranged<kNone, F, true>();
    case 2:
      return ranged<kNone, SF, true>();
    case 3:
      return ranged<kFF, FV, true>();
    case 4:
      return packed<kNone, true, F, F>();
    default:
      return packed<kFF, true, F, SF, FV>();
  }
}

sim::Workload b{"c09/join", "C09", join, sim::kAll, 2};
}  // namespace
