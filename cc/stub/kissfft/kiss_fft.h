// Stand-in for kissfft with double scalars: a plain mixed-radix transform with the same interface and scaling.
#pragma once
#include <complex>
#include <vector>
#include <cmath>
typedef double kiss_fft_scalar;
typedef struct { kiss_fft_scalar r, i; } kiss_fft_cpx;
inline int kiss_fft_next_fast_size(int n) {
  for (;; ++n) {
    int m = n;
    for (int p : {2, 3, 5})
      while (m && m % p == 0) m /= p;
    if (m <= 1) return n;
  }
}
