// C09: packs of inputs.
#include "c09.hpp"

namespace {
using namespace c09;

void pack() {
  switch (sim::gen(5)) {
    case 0:
      return packed<kFF, false, F, F, F>();
    case 1:
      return packed<kNone, false, F, F>();
    case 2:
      return packed<kFF, false, F, SF, F>();
    case 3:
      return packed<kFF, false, SF, FO>();
    default:
      return packed<kNone, false, SF, F, SF>();
  }
}
void tuple() {
  switch (sim::gen(4)) {
    case 0:
      return packed<kFF, false, F, FV>();
    case 2:
      return packed<kFF, false, FM, F>();
    case 1:
      return packed<kNone, false, F, FV, SF>();
    default:
      return packed<kFF, false, F, yaclib::Future<int, Err>, SF>();
  }
}

sim::Workload c{"c09/pack", "C09", pack, sim::kAll, 3};
sim::Workload d{"c09/tuple", "C09", tuple, sim::kAll, 2};
}  // namespace
