// C10: packs of inputs, also of different types.
#include "c10.hpp"

namespace {
using namespace c10;
void pack() {
  switch (sim::gen(6)) {
    case 0:
      return packed<kLast, F, F, F>();
    case 1:
      return packed<kFirst, F, SF>();
    case 2:
      return packed<kNone, SF, F, SF>();
    case 3:
      return packed<kLast, F, FI>();
    case 4:
      return packed<kFirst, F, FI, SF>();
    default:
      return packed<kLast, SF, FO, SF>();
  }
}
sim::Workload a{"c10/pack", "C10", pack, sim::kAll, 3};
}  // namespace
