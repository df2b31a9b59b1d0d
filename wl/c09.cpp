// C09: ranges of inputs.
#include "c09.hpp"

namespace {
using namespace c09;

void range() {
  switch (sim::gen(8)) {
    case 0:
      return ranged<kFF, F, false>();
    case 1:
      return ranged<kNone, F, false>();
    case 2:
      return ranged<kFF, FO, false>();
    case 3:
      return ranged<kFF, SF, false>();
    case 4:
      return ranged<kNone, SF, false>();
    case 5:
      return ranged<kNone, FO, false>();
    case 6:
      return ranged<kNone, FV, false>();
    default:
      return ranged<kFF, FV, false>();
  }
}

sim::Workload a{"c09/range", "C09", range, sim::kAll, 4};
}  // namespace
