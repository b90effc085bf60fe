"""Clustering noise meets the requested budget; over-spending is refused."""
import math

import numpy as np
from scipy import fft
from scipy import special

from mc import clus

PROPERTY = 'C03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of a configuration grid on the real code against an independently bracketed exact loss'
RULE = '''every combination of epsilon, delta, radius, depth and multipliers of a grid; the exact loss of one Gaussian sum and depth + 1
Laplace counts with the chosen noise levels is bracketed by an independent discretisation; a ladder of noise levels on both sides of the
boundary for the validation'''
ASSUMPTIONS = ['counts are accounted as continuous Laplace releases (C07 compares that with the noise drawn)']

MULT = ((1.0, 20.0), (1.0, 1.0), (5.0, 2.0), (0.3, 100.0))


def cases(tier):
  th = tier != 'quick'
  for eps in (0.1, 1.0, 4.0, 20.0) + ((0.02, 0.5, 2.0, 50.0) if th else ()):
    for delta in (1e-6, 0.01) + ((1e-12, 1e-9, 0.3) if th else ()):
      for depth in (0, 1, 5, 20):
        for m in MULT if (depth == 1 and eps < 10) or th else MULT[:2]:
          if eps < 10 or th or (m == MULT[0] and depth != 5):
            for radius in (1.0, 1e-7, 250.0) if depth == 1 and m[0] == 1 and eps < 10 or th else (3.0,):
              yield {'k': 'cal', 'eps': eps, 'delta': delta, 'depth': depth, 'm': m, 'r': radius}
  for eps in (0.3, 1.0, 5.0):
    for delta in (1e-8, 1e-3):
      for depth in (0, 3, 20):
        for m in ((1.0, 20.0), (1.0, 1.5)):
          if th or (m[1] == 20) == (depth > 0):
            yield {'k': 'val', 'eps': eps, 'delta': delta, 'depth': depth, 'm': m}
  # histories of calibrations in one process: each answer depends on its own request only
  base = (1.0, 1e-6, 2.0, 1, (1.0, 20.0))
  other = (3.0, 1e-3, 5.0, 6, (2.0, 7.0))
  for i in range(5):
    yield {'k': 'hist', 'seq': [base, base[:i] + other[i:i + 1] + base[i + 1:], base]}
    yield {'k': 'hist', 'seq': [other, other[:i] + base[i:i + 1] + other[i + 1:]]}
  yield {'k': 'hist', 'seq': [base, base[:4] + ((1.0, 5.0),), base[:4] + ((4.0, 20.0),), base[:4] + ((20.0, 1.0),)]}
  for off in ((math.inf, 1e-6, True), (math.inf, 0.0, True), (1.0, 1.0, True), (0.1, 1.5, True), (1.0, 0.99, False), (60.0, 1e-6, False), (1e-2, 0.5, False)):
    yield {'k': 'off', 'p': off}


def mass(cdf, lo, hi, h):
  """Mass per cell (kh, (k+1)h], first index, mass above."""
  a, b = math.floor(lo / h) - 1, math.ceil(hi / h) + 1
  c = np.clip(cdf(np.arange(a, b + 1) * h), 0, 1)
  c = np.maximum.accumulate(c)
  m = np.diff(c)
  m[0] += c[0]
  return m, a, 1 - c[-1]


def lap_cdf(w):
  """Distribution of the loss of a Laplace release with sensitivity / scale w."""
  def cdf(l):
    x = (w - l) / 2
    with np.errstate(all='ignore'):
      v = np.where(x >= 0, 0.5 * np.exp(-np.maximum(x, 0)), 1 - 0.5 * np.exp(np.minimum(x, 0)))
    return np.where(l < -w, 0.0, np.where(l >= w, 1.0, v))
  return cdf


def bracket(sigma, w, n, eps):
  """Lower and upper bound of delta at eps of one Gaussian (standard deviation sigma times sensitivity) and n Laplace (sensitivity / scale w)."""
  parts = []
  width = 0.0
  if sigma < math.inf:
    mu = 1 / sigma
    lo, hi = mu * mu / 2 - 9 * mu, mu * mu / 2 + 9 * mu
    parts.append((lambda l: special.ndtr((l - mu * mu / 2) / mu), lo, hi, 1))
    width += hi - lo
  parts.append((lap_cdf(w), -w, w, n))
  width += 2 * w * n
  h = max(width / 2**19, min(eps / (300.0 * (n + 1)), w / 100, width / 20000))
  size = None
  ms = []
  total = 1
  for cdf, lo, hi, k in parts:
    m, a, above = mass(cdf, lo, hi, h)
    ms.append((m, a, above, k))
    total += k * (len(m) - 1)
  size = fft.next_fast_len(total)
  f = np.ones(size // 2 + 1, dtype=complex)
  none, first, count = 1.0, 0, 0
  for m, a, above, k in ms:
    f *= fft.rfft(m, size) ** k
    none *= (1 - above) ** k
    first += k * a
    count += k
  p = np.maximum(fft.irfft(f, size)[:total], 0)
  low = (first + np.arange(total)) * h
  val = lambda l: float(np.sum(p * -np.expm1(np.minimum(0, eps - l))))
  return val(low), val(low + count * h) + (1 - none)


def make(eps, delta, radius, depth, m):
  return clus.PC.PrivacyCalculator(clus.CP.DifferentialPrivacyParam(eps, delta), radius, depth,
                                   clus.CP.PrivacyCalculatorMultiplier(*m))


def run(case, ctx):
  if case['k'] == 'off':
    return run_off(case, ctx)
  if case['k'] == 'val':
    return run_val(case, ctx)
  if case['k'] == 'hist':
    calcs = []
    for i, (eps, delta, radius, depth, m) in enumerate(case['seq']):
      c = {'k': 'cal', 'eps': eps, 'delta': delta, 'depth': depth, 'm': tuple(m), 'r': radius}
      calcs.append((run_cal(c, ctx, 'after %r: ' % (case['seq'][:i],)), i))
    for (a, i) in calcs:
      for (b, j) in calcs[:i]:
        ctx.check(a == b or case['seq'][i] != case['seq'][j], 'history %r' % (case['seq'],),
                  'requests %d and %d give %r and %r' % (j, i, b, a))
    return
  run_cal(case, ctx)


def run_cal(case, ctx, pre=''):
  eps, delta, depth, m = (case[k] for k in ('eps', 'delta', 'depth', 'm'))
  gm, lm = m
  n = depth + 1
  radius = case['r']
  key = pre + 'calibration %s' % sorted(case.items())
  pc = make(eps, delta, radius, depth, m)
  ctx.step()
  sd, a = pc.average_privacy_param.gaussian_standard_deviation, pc.count_privacy_param.laplace_param
  ctx.check(pc.average_privacy_param.sensitivity == radius, key, 'sensitivity %r' % (pc.average_privacy_param.sensitivity,))
  ctx.state(key)
  ctx.trace(key)
  if not ctx.check(0 < sd < math.inf and 0 < a < math.inf, key, 'noise levels %r, %r for a finite budget' % (sd, a)):
    return
  ratio = sd / radius * a
  ctx.check(abs(ratio / (gm / lm) - 1) < 1e-9, key, 'the two kinds of noise are in ratio %r, requested %r' % (ratio, gm / lm))
  alpha = sd / radius / gm
  lo, hi = bracket(sd / radius, a, n, eps)
  ctx.check(lo <= delta * (1 + 1e-9) + 1e-13, key, 'noise %r, %r has delta at least %r' % (sd, a, lo))
  less = alpha * 0.98 - 3e-6
  if less > 0:
    lo2, hi2 = bracket(less * gm, 1 / (lm * less), n, eps)
    ctx.check(hi2 > delta, key, 'noise %r, %r, but 2%% less noise has delta at most %r' % (sd, a, hi2))
  ctx.count('bracket width permille of delta', int(1000 * (hi - lo) / delta))
  try:
    pc.validate_accounting(clus.CP.DifferentialPrivacyParam(eps, delta), depth)
  except ValueError as e:
    ctx.fail(key, 'its own calibration is refused: %s' % e)
  return sd, a, pc.average_privacy_param.sensitivity


def accepts(pc, eps, delta, depth):
  try:
    pc.validate_accounting(clus.CP.DifferentialPrivacyParam(eps, delta), depth)
    return True
  except ValueError:
    return False


def with_noise(sigma, a, radius):
  pc = make(math.inf, 0.5, radius, 1, (1.0, 1.0))
  pc.average_privacy_param = clus.cpu.AveragePrivacyParam(sigma * radius, radius)
  pc.count_privacy_param = clus.cpu.CountPrivacyParam(a)
  return pc


def run_val(case, ctx):
  eps, delta, depth, m = (case[k] for k in ('eps', 'delta', 'depth', 'm'))
  gm, lm = m
  n = depth + 1
  # boundary noise level by bisection of the exact bracket
  lo, hi = 1e-3, 1e4
  for _ in range(40):
    mid = math.sqrt(lo * hi)
    if sum(bracket(mid * gm, 1 / (lm * mid), n, eps)) / 2 <= delta:
      hi = mid
    else:
      lo = mid
  alpha = hi
  param = (eps, delta)
  for radius in (40.0,):
    for f in (0.2, 0.97, 1.03, 1.1, 30.0):
      key = 'validation %s radius=%g noise x%g' % (sorted(case.items()), radius, f)
      pc = with_noise(f * alpha * gm, 1 / (lm * f * alpha), radius)
      ok = accepts(pc, eps, delta, depth)
      ctx.step()
      ctx.check(ok == (f > 1), key, 'accepted' if ok else 'refused')
      ctx.trace(key)
      ctx.state(key)
    # one kind of noise too small, whatever the other
    for sigma, a, why in ((0.0, 1 / (lm * alpha), 'no noise on sums'), (alpha * gm, math.inf, 'no noise on counts'), (0.0, math.inf, 'no noise at all'),
                          (alpha * gm * 0.2, 1e-6, 'sum noise too small'), (1e6, 20 * eps, 'count noise too small')):
      key = 'validation %s radius=%g %s' % (sorted(case.items()), radius, why)
      pc = with_noise(sigma, a, radius)
      if why.startswith('sum') or why.startswith('count'):
        if bracket(sigma, a, n, eps)[0] <= delta * 1.01:
          continue
      ctx.check(not accepts(pc, eps, delta, depth), key, 'accepted for budget %r' % (param,))
      ctx.step()
      ctx.trace(key)
    # noise for a smaller depth is not enough for a larger one
    if depth:
      pc = with_noise(1.03 * alpha * gm, 1 / (lm * 1.03 * alpha), radius)
      for d2 in (depth - 1, depth, 4 * depth + 4):
        want = bracket(1.03 * alpha * gm, 1 / (lm * 1.03 * alpha), d2 + 1, eps)
        if want[0] <= delta < want[1] or abs(want[0] / delta - 1) < 1e-2:
          continue
        ctx.check(accepts(pc, eps, delta, d2) == (want[1] <= delta), 'validation %s other depth %d' % (sorted(case.items()), d2),
                  'noise good for depth %d is judged wrongly, exact delta %r' % (depth, want))
        ctx.step()
        ctx.trace()


def run_off(case, ctx):
  eps, delta, off = case['p']
  for depth in (0, 3) if off else (1,):
    for m in MULT if off else MULT[:1]:
      key = 'eps=%g delta=%g depth=%d multipliers=%r' % (eps, delta, depth, m)
      pc = make(eps, delta, 2.0, depth, m)
      sd, a = pc.average_privacy_param.gaussian_standard_deviation, pc.count_privacy_param.laplace_param
      ctx.check((sd == 0) == off and (a == math.inf) == off, key, 'noise levels %r, %r' % (sd, a))
      ctx.check(accepts(pc, eps, delta, depth), key, 'refused')
      if off:
        ctx.check(not accepts(pc, 1.0, 1e-6, depth), key, 'no noise accepted for a finite budget')
      ctx.step()
      ctx.trace(key)
      ctx.state(key)
