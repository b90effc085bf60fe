// Stand-in for the random bytes of OpenSSL: the harness decides every one of them.
#include <cstddef>
#include <cstdint>
#include <cstring>

#include "env.h"

namespace mc {
std::function<uint64_t()> next_word;
uint64_t words_drawn = 0;
static uint64_t lcg = 88172645463325252ULL;
static uint64_t Default() {
  lcg ^= lcg << 13;
  lcg ^= lcg >> 7;
  lcg ^= lcg << 17;
  return lcg;
}
uint64_t Word() {
  ++words_drawn;
  return next_word ? next_word() : Default();
}
}  // namespace mc

extern "C" int RAND_bytes(unsigned char* buf, int num) {
  for (int i = 0; i + 8 <= num; i += 8) {
    uint64_t w = mc::Word();
    memcpy(buf + i, &w, 8);
  }
  return 1;
}
