"""Noise and budget helpers return safe and near-minimal values."""
import itertools
import math

import mpmath
import numpy as np
from scipy import fft
from scipy import special

from dp_accounting.pld import accountant as ACC
from dp_accounting.pld import common

PROPERTY = 'K03'
LEVEL = 'model_checking'
RULE = '''every combination of epsilon, delta, number of queries and sensitivity of a grid for each noise helper, the exact
loss of the composed mechanism bracketed by an independent discretisation (closed form where there is one); every
combination of epsilon, delta, number of queries and total delta of a grid for advanced composition against the exact
composition in high-precision arithmetic'''
ASSUMPTIONS = ['epsilon is positive', 'noise helpers search to an absolute precision of 1e-7']

DP = common.DifferentialPrivacyParameters
EPS = (0.05, 0.3, 1.0, 2.0, 7.0, 30.0)
DELTAS = (0.0, 1e-15, 1e-9, 1e-5, 0.01, 0.3, 0.9)
SENS = (1.0, 0.01, 37.5, 1e6)


def cases(tier):
  th = tier != 'quick'
  for e in EPS:
    for n in (1, 2, 3, 7) + ((20, 64) if th else ()):
      for d in DELTAS:
        yield {'k': 'lap', 'e': e, 'n': n, 'd': d}
        yield {'k': 'dlap', 'e': e, 'n': n, 'd': d}
  for e in EPS + (1e-3, 300.0):
    for n in (1, 2, 9, 1000, 10**6):
      yield {'k': 'gauss', 'e': e, 'n': n}
  subs = [(1.0, 1e-5, 1, 1.0), (1.0, 1e-5, 1, 0.1), (0.5, 1e-4, 10, 0.2), (3.0, 1e-6, 4, 0.5), (2.0, 0.01, 30, 0.05)]
  if th:
    subs += [(0.1, 1e-3, 3, 0.3), (1.0, 1e-7, 100, 0.02), (6.0, 1e-5, 2, 0.9), (1.0, 0.2, 5, 0.5), (8.0, 1e-6, 20, 0.1)]
  for e, d, n, q in subs:
    for s in (1.0, 4.0):
      yield {'k': 'sub', 'e': e, 'd': d, 'n': n, 'q': q, 's': s}
  for k in (0, 1, 2, 3, 4, 5, 9, 10, 17, 40, 61, 100) + ((250, 333, 1050) if th else (260,)):
    for e in (0.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 3.0, 20.0):
      yield {'k': 'adv', 'n': k, 'e': e}
  for n in (1, 2, 3, 4, 5, 6, 7, 10, 11, 25, 49, 60) + ((100, 103, 200) if th else ()):
    yield {'k': 'inv', 'n': n}


# ---------------------------------------------------------------- composed loss, bracketed
def compose_bracket(cdf, lo, hi, h, n, eps):
  """Lower and upper bound of delta(eps) of n copies of a loss with the given distribution function; mass outside [lo, hi] counted."""
  a, b = math.floor(lo / h) - 1, math.ceil(hi / h) + 1
  grid = np.arange(a, b + 1)
  c = np.clip(np.array([cdf(k * h) for k in grid]), 0, 1)
  c = np.maximum.accumulate(c)
  m = np.diff(c)  # mass in ((a+i)h, (a+i+1)h]
  below, above = c[0], 1 - c[-1]
  m[0] += below
  size = fft.next_fast_len(n * len(m) + 1)
  f = fft.irfft(fft.rfft(m, size) ** n, size)[:n * (len(m) - 1) + 1]
  f = np.maximum(f, 0)
  idx = np.arange(len(f))
  up = (n * (a + 1) + idx) * h
  dn = (n * a + idx) * h
  none = (1 - above) ** n
  hi_delta = float(np.sum(f * -np.expm1(np.minimum(0, eps - up)))) + (1 - none)
  lo_delta = float(np.sum(f * -np.expm1(np.minimum(0, eps - dn))))
  return lo_delta, hi_delta


def lap_cdf(b, s):
  def cdf(l):  # loss (|x - s| - |x|) / b under noise centred at 0
    if l < -s / b:
      return 0.0
    if l >= s / b:
      return 1.0
    x = (s - l * b) / 2
    return 0.5 * math.exp(-x / b) if x >= 0 else 1 - 0.5 * math.exp(x / b)
  return cdf


def run_lap(case, ctx):
  e, n, d = case['e'], case['n'], case['d']
  for s in SENS:
    key = 'laplace eps=%g delta=%g n=%d sensitivity=%g' % (e, d, n, s)
    b = ACC.get_smallest_laplace_noise(DP(e, d), n, s)
    ctx.step()
    ctx.check(0 < b <= n * s / e * (1 + 1e-12) + 1e-7, key, 'noise %r, pure privacy needs only %r' % (b, n * s / e))
    h = e / (2000.0 if n < 5 else 4000.0)

    def delta(b):
      if n == 1:  # exact
        x = s / b
        v = -math.expm1((e - x) / 2) if x > e else 0.0
        return v, v
      w = s / b
      hh = max(h / n, w / 60000)
      return compose_bracket(lap_cdf(b, s), -w, w, hh, n, e)
    lo, _ = delta(b)
    tol = 1e-13 if n == 1 else 1e-13 * n
    ctx.check(lo <= d * (1 + 1e-9) + tol, key, 'noise %r has delta %r > %r' % (b, lo, d))
    less = b * (1 - 0.02) - 3e-7
    if less > 0:
      hi = delta(less)[1]
      ctx.check(hi > d, key, 'noise %r returned, but %r has delta %r <= %r' % (b, less, hi, d))
    ctx.trace(key)
    ctx.state(key)


def dlap_delta(a, s, n, eps):
  """Exact delta of n discrete Laplace releases with parameter a: losses are multiples of a."""
  # loss a * k with k = |x - s| - |x|, x integer with probability tanh(a/2) exp(-a|x|)
  t = math.tanh(a / 2)
  m = np.zeros(2 * s + 1)  # index k + s
  m[2 * s] = 1 / (1 + math.exp(-a))  # x <= 0
  m[0] += math.exp(-a * s) / (1 + math.exp(-a))  # x >= s
  for x in range(1, s):
    m[(s - x) - x + s] += t * math.exp(-a * x)
  f = m
  for _ in range(n - 1):
    f = np.convolve(f, m)
  k = np.arange(len(f)) - n * s
  return float(np.sum(f * -np.expm1(np.minimum(0, eps - a * k))))


def run_dlap(case, ctx):
  e, n, d = case['e'], case['n'], case['d']
  for s in (1, 2, 5, 40):
    key = 'discrete laplace eps=%g delta=%g n=%d sensitivity=%g' % (e, d, n, s)
    a = ACC.get_smallest_discrete_laplace_noise(DP(e, d), n, s)
    ctx.step()
    ctx.check(a >= e / (n * s) * (1 - 1e-12) - 1e-7 * a * a, key, 'parameter %r, pure privacy allows %r' % (a, e / (n * s)))
    got = dlap_delta(a, s, n, e * (1 + 1e-12))
    ctx.check(got <= d * (1 + 1e-9) + 1e-14 * n, key, 'parameter %r has delta %r > %r' % (a, got, d))
    if 1 / a > 4e-7:
      more = 1 / (1 / a * (1 - 1e-6) - 2e-7)
      got = dlap_delta(more, s, n, e)
      ctx.check(got > d * (1 - 1e-9) - 1e-14 * n and (got > 0 or more > e / (n * s)), key, 'parameter %r returned, but %r has delta %r <= %r' % (a, more, got, d))
    ctx.trace(key)
    ctx.state(key)


def gauss_delta(mu, eps):
  """Exact delta of a Gaussian mechanism with sensitivity / standard deviation mu."""
  with mpmath.workdps(60):
    mu, eps = mpmath.mpf(mu), mpmath.mpf(eps)
    return mpmath.ncdf(mu / 2 - eps / mu) - mpmath.exp(eps) * mpmath.ncdf(-mu / 2 - eps / mu)


def run_gauss(case, ctx):
  e, n = case['e'], case['n']
  for d in (1e-100, 1e-15, 1e-9, 1e-5, 0.01, 0.3, 0.9):
    for s in SENS:
      key = 'gaussian eps=%g delta=%g n=%d sensitivity=%g' % (e, d, n, s)
      sigma = ACC.get_smallest_gaussian_noise(DP(e, d), n, s)
      ctx.step()
      got = gauss_delta(s * math.sqrt(n) / sigma, e)
      ctx.check(got <= d * (1 + 1e-6), key, 'noise %r has delta %r > %r' % (sigma, float(got), d))
      less = sigma * (1 - 1e-6) - 1e-6
      if less > 0:
        got = gauss_delta(s * math.sqrt(n) / less, e)
        ctx.check(got > d, key, 'noise %r returned, but %r has delta %r <= %r' % (sigma, less, float(got), d))
      ctx.trace(key)
  ctx.state(repr(case))


def run_sub(case, ctx):
  e, d, n, q, s = (case[k] for k in ('e', 'd', 'n', 'q', 's'))
  key = 'subsampled gaussian %s' % sorted(case.items())
  sigma = ACC.get_smallest_subsampled_gaussian_noise(DP(e, d), n, s, q)
  ctx.step()

  def x_at(l, sg):  # point where the density ratio mixture / N(0) is exp(l)
    v = math.expm1(l) + q
    if v <= 0:
      return -math.inf
    return (math.log(v / q) + s * s / (2 * sg * sg)) * sg * sg / s

  def delta(sg):
    def remove(l):
      x = x_at(l, sg)
      return (1 - q) * special.ndtr(x / sg) + q * special.ndtr((x - s) / sg)

    def add(l):
      return float(special.ndtr(-x_at(-l, sg) / sg))
    top = math.log1p(q * math.expm1(min(600.0, (12 * sg * s + s * s) / (sg * sg))))
    bot = math.log1p(-q) if q < 1 else -top
    h = min(e / (1000 * n), top / 500)
    h = max(h, 2 * top / 200000)
    r1 = compose_bracket(remove, bot, top, h, n, e)
    r2 = compose_bracket(add, -top, -bot, h, n, e)
    return max(r1[0], r2[0]), max(r1[1], r2[1])
  lo, hi = delta(sigma)
  ctx.check(lo <= d * (1 + 1e-6), key, 'noise %r has delta at least %r > %r' % (sigma, lo, d))
  lo2, hi2 = delta(sigma * 0.99)
  ctx.check(hi2 > d, key, 'noise %r returned, but %r has delta at most %r <= %r' % (sigma, sigma * 0.99, hi2, d))
  ctx.count('bracket width permille', int(1000 * (hi - lo) / d))
  ctx.trace(key)
  ctx.state(key)


# ---------------------------------------------------------------- advanced composition
def exact_total(k, eps, delta):
  """Exact total delta at each multiple (k - 2i) eps, i = 0..k//2, of k mechanisms that are exactly (eps, delta)-private."""
  with mpmath.workdps(80):
    e, d = mpmath.mpf(eps), mpmath.mpf(delta)
    p = 1 / (1 + mpmath.exp(-e))
    out = []
    term = [mpmath.binomial(k, l) * p ** (k - l) * (1 - p) ** l for l in range(k + 1)]  # loss (k - 2l) eps
    for i in range(k // 2 + 1):
      t = mpmath.fsum(term[l] * (1 - mpmath.exp(2 * e * (l - i))) for l in range(i))
      out.append(mpmath.mpf(min(k, 1)) if d == 1 else -mpmath.expm1(k * mpmath.log1p(-d) + mpmath.log1p(-t)))
    return out


TOTALS = (0.0, 1e-300, 1e-25, 1e-17, 1e-12, 1e-8, 1e-5, 1e-3, 0.1, 0.5, 0.9, 1.0)


def run_adv(case, ctx):
  k, e = case['n'], case['e']
  for d in (0.0, 1e-30, 1e-18, 1e-10, 1e-6, 1e-3, 0.2, 1.0):
    exact = exact_total(k, e, d)
    for t in TOTALS + tuple(float(x) * f for x in exact[1:4] for f in (1 - 1e-9, 1 + 1e-9)):
      if t > 1:
        continue
      key = 'advanced composition eps=%g delta=%g n=%d total delta=%g' % (e, d, k, t)
      r = ACC.advanced_composition(DP(e, d), k, t)
      ctx.step()
      slack = 1e-10
      ok = [float(x) <= t * (1 + slack) + 0.0 for x in exact]
      sure = [float(x) <= t * (1 - slack) for x in exact]
      if r is None:
        ctx.check(not any(sure), key, 'says impossible, but %r is possible' % (next((e * (k - 2 * i) for i, s in enumerate(sure) if s), 0)))
      else:
        i = None
        for j in range(k // 2 + 1):
          if abs(r - e * (k - 2 * j)) <= 1e-12 * max(e, 1e-300) * k:
            i = j
            break
        if not ctx.check(i is not None, key, 'total epsilon %r is not a multiple' % r):
          continue
        if e == 0:
          ctx.check(any(ok), key, 'returned %r, exact total delta is %r' % (r, float(exact[0])))
          continue
        ctx.check(ok[i], key, 'total epsilon %r has exact delta %r > %r' % (r, float(exact[i]), t))
        ctx.check(i == k // 2 or not sure[i + 1], key, 'total epsilon %r, but %r has exact delta %r <= %r' % (r, e * (k - 2 * i - 2), float(exact[min(i + 1, k // 2)]), t))
      ctx.trace()
  ctx.state(repr(case))


def run_inv(case, ctx):
  n = case['n']
  for te in (1e-9, 0.1, 0.3, 0.7, 1.0, 1.1, 3.3, 5.0, 20.0, 300.0):
    for td in (0.0, 1e-20, 1e-9, 1e-5, 0.01, 0.4, 1.0):
      for d in (0.0, td / n, td / (2 * n), td, 1e-18):
        if d > 1:
          continue
        key = 'inverse of advanced composition total eps=%g delta=%g n=%d delta=%g' % (te, td, n, d)
        r = ACC.get_smallest_epsilon_from_advanced_composition(DP(te, td), n, d)
        ctx.step()
        with mpmath.workdps(60):
          left = 1 - (1 - mpmath.mpf(d)) ** n
        if r is None:
          ctx.check(float(left) > td * (1 - 1e-10), key, 'says impossible, but epsilon %r is possible' % (te / n))
          continue
        ctx.check(float(left) <= td * (1 + 1e-10), key, 'returned %r, though no epsilon is possible' % r)
        ctx.check(te / n * (1 - 1e-12) <= r <= te * (1 + 1e-12), key, 'returned %r, outside [%r, %r]' % (r, te / n, te))

        def total(e):  # smallest multiple whose exact total delta is within the total
          ex = exact_total(n, e, d)
          best = None
          for i, x in enumerate(ex):
            if float(x) <= td * (1 + 1e-10):
              best = e * (n - 2 * i)
          return best
        t = total(r)
        ctx.check(t is not None and t <= te * (1 + 1e-10), key, 'epsilon %r composes to %r > %r' % (r, t, te))
        more = r * (1 + 1e-9) + 2e-7
        if more < te:
          ex = exact_total(n, more, d)
          best = min([more * (n - 2 * i) for i, x in enumerate(ex) if float(x) <= td * (1 - 1e-10)] or [math.inf])
          ctx.check(best > te, key, 'epsilon %r returned, but %r composes to %r <= %r' % (r, more, best, te))
        ctx.trace()
    ctx.state((n, te))


def run(case, ctx):
  {'lap': run_lap, 'dlap': run_dlap, 'gauss': run_gauss, 'sub': run_sub, 'adv': run_adv, 'inv': run_inv}[case['k']](case, ctx)
