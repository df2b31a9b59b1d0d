// C10: ranges of shared futures.
#include "c10.hpp"

namespace {
using namespace c10;
void shared() {
  switch (sim::gen(4)) {
    case 0:
      return ranged<kLast, SF>();
    case 1:
      return ranged<kFirst, SF>();
    case 2:
      return ranged<kLast, FO>();
    default:
      return ranged<kNone, SF>();
  }
}
sim::Workload a{"c10/shared", "C10", shared, sim::kAll, 3};
}  // namespace
