// C10: ranges of unique futures.
#include "c10.hpp"

namespace {
using namespace c10;
void range() {
  switch (sim::gen(6)) {
    case 0:
    case 1:
      return ranged<kLast, F>();
    case 2:
      return ranged<kFirst, F>();
    case 3:
      return ranged<kNone, F>();
    case 4:
      return ranged<kLast, FM>();
    default:
      return ranged<kFirst, FV>();
  }
}
sim::Workload a{"c10/range", "C10", range, sim::kAll, 4};
}  // namespace
