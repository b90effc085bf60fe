#pragma once
#include <cstdlib>
namespace mc_stub { template <class T> T NotNull(T t) { if (t == nullptr) abort(); return t; } }
#define ABSL_DIE_IF_NULL(x) ::mc_stub::NotNull(x)
