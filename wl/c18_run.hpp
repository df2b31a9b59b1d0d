#pragma once
#include "wl/c18.hpp"

namespace c18 {

template <void (*Body)()>
void run() {
  exact = genp(1, 2);
  clk = 0;
  const fk::Config c = fk::gen_config(!exact);
  jitter = c.sleep;
  tick = c.tick;
  idle_extra = nullptr;
  fk::set_idle(on_idle);
  fk::run(c, Body);
}

}  // namespace c18
