// Harness for programs running on the library's own fault backends (YACLIB_FAULT = FIBER or THREAD).
#pragma once
#include "simrt/fib.hpp"

#include <yaclib/config.hpp>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/inject.hpp>

#include <yaclib_std/chrono>
#include <yaclib_std/thread>

namespace fk {

using sim::u32;
using sim::u64;

struct Config {
  u32 freq = 16;   // injection frequency; huge = never
  u32 pick = 10;   // scheduler pick width
  u32 weak = 13;   // weak CAS failure frequency
  u32 sleep = 100; // sleep jitter
  u32 tick = 10;
  u32 seed = 1;
};
constexpr u32 kNever = 1u << 30;

Config gen_config(bool injections);  // from the generation stream
void apply(const Config& c);         // through the public configuration API
// what the backend does, for workloads that compare executions: kind 1 = draw(max, value), 2 = fiber resumed(id, time), 3 = weak CAS fails?(r)
using TraceFn = void (*)(u32 kind, u64 a, u64 b);
void set_trace(TraceFn f);
void reset_idle();
u64 now();
int self();

// called when virtual time jumps because no fiber can run
using IdleFn = void (*)();
void set_idle(IdleFn f);

// runs `body` as the first fiber of a fresh scheduler; everything it starts has to finish
void run(const Config& c, void (*body)(), bool steer = true);

}  // namespace fk
