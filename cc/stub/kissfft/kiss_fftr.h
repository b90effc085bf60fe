#pragma once
#include "kissfft/kiss_fft.h"
struct kiss_fftr_state {
  int n;
  bool inverse;
  std::vector<std::complex<double>> w;  // w[k] = exp(-2 pi i k / n)
};
typedef kiss_fftr_state* kiss_fftr_cfg;
inline kiss_fftr_cfg kiss_fftr_alloc(int n, int inverse, void*, size_t*) {
  if (n & 1) return nullptr;
  auto* c = new kiss_fftr_state;
  c->n = n;
  c->inverse = inverse;
  c->w.resize(n);
  for (int k = 0; k < n; ++k) {
    long double a = -2 * 3.14159265358979323846264338328L * k / n;
    c->w[k] = {(double)cosl(a), (double)sinl(a)};
  }
  return c;
}
inline void kiss_fftr_free(kiss_fftr_cfg c) { delete c; }
inline void kiss_stub_fft(const kiss_fftr_state& c, const std::complex<double>* in, int n, int stride, std::complex<double>* out) {
  if (n == 1) { *out = *in; return; }
  int p = n;
  for (int q : {2, 3, 5})
    if (n % q == 0) { p = q; break; }
  int m = n / p;
  for (int r = 0; r < p; ++r) kiss_stub_fft(c, in + (long)r * stride, m, stride * p, out + (long)r * m);
  std::vector<std::complex<double>> t(p);
  for (int k = 0; k < m; ++k) {
    for (int r = 0; r < p; ++r) t[r] = out[(long)r * m + k];
    for (int q = 0; q < p; ++q) {
      std::complex<double> s = t[0];
      for (int r = 1; r < p; ++r) s += t[r] * c.w[(long)r * (k + (long)q * m) % n * stride];
      out[(long)q * m + k] = s;
    }
  }
}
inline void kiss_fftr(kiss_fftr_cfg c, const kiss_fft_scalar* in, kiss_fft_cpx* out) {
  std::vector<std::complex<double>> a(in, in + c->n), b(c->n);
  kiss_stub_fft(*c, a.data(), c->n, 1, b.data());
  for (int k = 0; k <= c->n / 2; ++k) out[k] = {b[k].real(), b[k].imag()};
}
inline void kiss_fftri(kiss_fftr_cfg c, const kiss_fft_cpx* in, kiss_fft_scalar* out) {
  std::vector<std::complex<double>> a(c->n), b(c->n);
  // the conjugate of the forward transform of the conjugates
  for (int k = 0; k <= c->n / 2; ++k) {
    a[k] = {in[k].r, -in[k].i};
    if (k && k < c->n - k) a[c->n - k] = {in[k].r, in[k].i};
  }
  kiss_stub_fft(*c, a.data(), c->n, 1, b.data());
  for (int k = 0; k < c->n; ++k) out[k] = b[k].real();
}
