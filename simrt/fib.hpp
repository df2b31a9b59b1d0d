// Seams between the runtime and the fault backends' kit.
#pragma once
#include "sim.hpp"
namespace sim::fib {
enum Draw { kDrawPick, kDrawYield, kDrawWeak, kDrawSleep, kDrawOther };
bool running();
void set_steer(bool on);       // true: the run's draws come from the recorded stream
void set_limit(u64 n);
void set_time(u64 ns);
void on_fiber();
void on_switch(int id);
void set_cur(int id);
void forget_cur();
u64 hash();
void set_nontrivial();
u64 on_draw(u64 max, u64 real, Draw what);
}  // namespace sim::fib
