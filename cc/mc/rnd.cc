// Stand-in for rand.cc: the harness decides every draw. The real one is compiled under other names in realrand.cc.
#include <cstdlib>

#include "algorithms/rand.h"
#include "env.h"

namespace mc {
std::function<double()> on_uniform;
}
namespace differential_privacy {
double UniformDouble() {
  if (mc::on_uniform) return mc::on_uniform();
  return std::ldexp((double)(mc::Word() >> 11), -53);
}
uint64_t Geometric() { return mc::Word() % 3 + 1; }
SecureURBG& SecureURBG::GetInstance() {
  static auto* i = new SecureURBG;
  return *i;
}
SecureURBG::result_type SecureURBG::operator()() { return mc::Word(); }
void SecureURBG::RefreshBuffer() {}
}  // namespace differential_privacy
