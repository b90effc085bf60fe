// Every random word and every uniform draw, decided by the harness.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
namespace mc {
extern std::function<uint64_t()> next_word;
extern std::function<double()> on_uniform;
extern uint64_t words_drawn;
uint64_t Word();
struct Draws {};  // thrown when a script is at its end
}  // namespace mc
