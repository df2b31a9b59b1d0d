// C10: the moment of completion.
#include "c10.hpp"

namespace {
using namespace c10;
void timing() {
  switch (sim::gen(6)) {
    case 0:
      return stepwise<kLast, F>();
    case 1:
      return stepwise<kFirst, F>();
    case 2:
      return stepwise<kNone, F>();
    case 3:
      return stepwise<kLast, SF>();
    case 4:
      return stepwise<kFirst, SF>();
    default:
      return stepwise<kNone, SF>();
  }
}
sim::Workload a{"c10/timing", "C10", timing, sim::kAll, 2};
}  // namespace
