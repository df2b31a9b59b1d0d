#pragma once
#include <cstdint>
namespace c17 {
// reuse: the memory that was freed is given out again, as usual; otherwise no address comes twice
void env(std::uint64_t seed, bool reuse);  // the surroundings of the next repetition
void env_off();
}  // namespace c17
