"""The loss accounted for noisy counts covers the noise that is really drawn."""
import math

import numpy as np

from checks import C03
from checks import K03
from dp_accounting.pld import pld_privacy_accountant
from mc import clus

PROPERTY = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of a configuration grid on the real code against the exact loss of the noise drawn'
RULE = '''every combination of count noise level, sum noise level, radius and depth of a grid and every epsilon of a menu; the noise really drawn
is recorded from the count release itself'''
ASSUMPTIONS = ['one point changes a count by one', 'counts are drawn with scipy.stats.dlaplace, whose law is taken from its documentation']

KNOWN = 'discrete Laplace noise of counts accounted as continuous Laplace noise'


def cases(tier):
  th = tier != 'quick'
  for a in (0.05, 0.2, 0.5, 1.0, 2.0, 5.0) + ((0.01, 0.1, 10.0) if th else ()):
    for depth in (0, 1, 3, 9) + ((20,) if th else ()):
      for sigma in (math.inf, 2.0):
        yield {'a': a, 'depth': depth, 'sigma': sigma}
  yield {'draws': True}


def drawn(a):
  """Parameters the count release really draws with."""
  with clus.controlled(noise_of=lambda i: 3) as t:
    got = clus.cpu.get_private_count(10, clus.cpu.CountPrivacyParam(a))
  return t.counts, got


def run_draws(ctx):
  """However weak or strong, the noise configured is the noise drawn, for every count."""
  for a in [m * 10.0**e for e in range(-6, 4) for m in (1.0, 1.2, 2.0, 3.0, 4.0, 5.0, 6.0, 8.0)]:
    for true in (0, 1, 10, 10**6):
      for noise in (-12, -1, 0, 1, 3):
        with clus.controlled(noise_of=lambda i: noise) as t:
          got = clus.cpu.get_private_count(true, clus.cpu.CountPrivacyParam(a))
        key = 'draw a=%g count=%d noise=%d' % (a, true, noise)
        ctx.step()
        ctx.state(key)
        if ctx.check(got == true + noise and len(t.counts) == 1, key, 'released as %r with %d draws' % (got, len(t.counts))):
          params = t.counts[0][1]
          params = params if isinstance(params, list) else [params]
          ctx.check(len(params) == 1 and abs(float(params[0]) / a - 1) < 1e-12, key, 'drawn with %r, %r configured' % (params, a))
  ctx.ev('draws')
  ctx.trace()


def run(case, ctx):
  if 'draws' in case:
    run_draws(ctx)
    return
  a, depth, sigma = case['a'], case['depth'], case['sigma']
  n = depth + 1
  key = 'counts %s' % sorted(case.items())
  counts, got = drawn(a)
  if not ctx.check(got == 13 and len(counts) == 1 and len(counts[0]) == 4, key, 'a count of 10 with noise 3 is released as %r (%r)' % (got, counts)):
    return
  params = counts[0][1] if isinstance(counts[0][1], list) else [counts[0][1]]
  if not ctx.check(len(params) == 1 and params[0] is not None, key, 'draws %r' % (params,)):
    return
  real = float(params[0])
  ctx.check(abs(real / a - 1) < 1e-12, key, 'noise parameter %r drawn with, %r configured' % (real, a))
  for radius in (1.0, 30.0):
    # an infinite sum noise is approximated by one that costs nothing
    s = sigma if sigma < math.inf else 1e7
    ev = clus.PC.make_clustering_event(s * radius, a, radius, depth)
    acct = pld_privacy_accountant.PLDAccountant()
    acct.compose(ev)
    for eps in sorted({0.0, a / 2, a, 1.5 * a, n * a / 3, n * a / 2, 0.9 * n * a, n * a - a / 2}):
      k2 = '%s radius=%g eps=%g' % (key, radius, eps)
      acc = acct.get_delta(eps)
      if sigma < math.inf:
        exact = exact_mixed(sigma, real, n, eps)
        cont = C03.bracket(sigma, a, n, eps)[0]
      else:
        exact = K03.dlap_delta(real, 1, n, eps)
        cont = C03.bracket(math.inf, a, n, eps)[0]
      ctx.step()
      ctx.trace(k2)
      ctx.state(k2)
      slack = 1e-9
      if acc >= exact * (1 - 1e-6) - slack:
        ctx.check(True, k2, '')
      elif acc >= cont * (1 - 1e-6) - slack:
        ctx.evals += 1
        ctx.fail(KNOWN, 'delta %.6g accounted, the noise drawn has at least %.6g (%s)' % (acc, exact, k2))
        ctx.count('epsilons under-accounted')
      else:
        ctx.fail(k2, 'delta %.6g accounted, the noise drawn has at least %.6g and continuous noise at least %.6g' % (acc, exact, cont))


def exact_mixed(sigma, a, n, eps):
  """Exact delta of a Gaussian sum and n discrete Laplace counts: the discrete losses are summed out one by one."""
  from scipy import special
  mu = 1 / sigma
  p = 1 / (1 + math.exp(-a))
  # loss a with probability p, -a otherwise (sensitivity one)
  total = 0.0
  for j in range(n + 1):
    w = math.comb(n, j) * p**(n - j) * (1 - p)**j
    e = eps - (n - 2 * j) * a
    total += w * (special.ndtr(mu / 2 - e / mu) - math.exp(min(700, e)) * special.ndtr(-mu / 2 - e / mu))
  return float(total)
