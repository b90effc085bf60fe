#pragma once
#include <cstdint>
namespace differential_privacy {
double RealUniformDouble();
uint64_t RealGeometric();
}  // namespace differential_privacy
