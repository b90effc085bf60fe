"""Loss distributions of noise mechanisms bracket the exact loss."""
import inspect
import math

import numpy as np

from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as L
from mc import noise
from mc import pl
from mc import ref as R

PROPERTY = 'L04'
LEVEL = 'model_checking'
RULE = '''full product of mechanism, noise level, sensitivity, sampling rate, discretization method, estimate kind,
interval and tail bound; each direction of each distribution compared at every epsilon of a ladder (grid points, points
between them, kinks, negatives) with the exact divergence of the two output laws'''
ASSUMPTIONS = ['floating-point slack 1e-10 absolute', 'a distribution may only err by one interval and by its tail bound']
TOL = 1e-10
EPS = [-50.0, -7.0, -2.5, -1.0, -0.69, -0.3, -0.1, -1e-3, 0.0, 1e-9, 1e-3, 0.05, 0.1, 0.2, 0.31, 0.5, 0.6931471805599453,
       0.75, 1.0, 1.3, 2.0, 3.5, 5.0, 8.0, 13.0, 30.0, 100.0, 400.0]
MIXES = [[(1.0, 1.0)], [(0.5, 0), (0.5, 1)], [(0.9, 0), (0.07, 1), (0.03, 2)], [(0.3, 0.5), (0.7, 2)],
         [(0.1, 0.1), (0.2, 1), (0.7, 1.1)], [(0.7, 1.1), (0.2, 1), (0.1, 0.5)], [(0.999, 0), (0.001, 3)]]


def configs(tier):
  t = tier == 'thorough'
  out = []
  qs = [1.0, 0.9, 0.2, 1e-3] + ([0.5, 0.01, 0.999] if t else [])
  for s in [1, 0.3, 3.0] + ([0.05, 7] if t else []):
    for q in qs:
      w = noise.sampled(q, s)
      out += [{'k': 'lap', 'p': p * s, 'w': w} for p in [0.04, 0.4, 1, 3.3, 40.0] + ([0.15, 2, 11] if t else [])]
      out += [{'k': 'gauss', 'p': p * s, 'w': w} for p in [0.2, 0.7, 1, 3.3, 25.0] + ([0.45, 2, 9] if t else [])]
  for p in [0.3, 1.0, 6.0] + ([0.5, 2.5, 30] if t else []):
    out += [{'k': 'mix', 'p': p, 'w': w} for w in MIXES]
  for s in [1, 2, 5] + ([3, 4, 11] if t else []):
    for q in qs:
      w = noise.sampled(q, s)
      out += [{'k': 'dlap', 'p': p, 'w': w} for p in [0.03, 0.4, 1.0, 4.0] + ([0.11, 0.8, 2.2] if t else [])]
      out += [{'k': 'dgauss', 'p': p, 'w': w, 't': b} for p in [0.3, 1.0, 4.4] + ([0.6, 2, 15] if t else [])
              for b in [None, 3, 12] if 2 * (b or 999) >= s]
  return out


def cases(tier):
  t = tier == 'thorough'
  for d in configs(tier):
    yield {'k': 'mech', 'd': d, 'hs': [0.5, 0.1, 0.03] + ([1.0, 0.2, 0.007, 1e-3] if t else []),
           'span': 4000 if not t else 60000}
  for n in ([2, 3, 10] if not t else [2, 3, 4, 7, 10, 100]):
    for p in [0.0, 0.01, 0.3, 0.75, 1.0] + ([0.1, 0.5, 0.99] if t else []):
      yield {'k': 'rr', 'n': n, 'p': p}
  for e in [0.0, 0.05, 0.1, 0.2999999, 0.7, 1.0, 5.0, 30.0, 720.0]:
    for dl in [0.0, 1e-9, 0.01, 0.5, 1.0]:
      yield {'k': 'par', 'eps': e, 'delta': dl, 'hs': [1.0, 0.25, 0.1, 0.03] + ([1e-3] if t else [])}
  for kind in ('lap', 'gauss'):
    for p in [0.3, 1.0, 4.0]:
      yield {'k': 'cdf', 'kind': kind, 'p': p}
  n = 6 if not t else 9
  for a in pl.simplex(n, 3):
    yield {'k': 'pair', 'a': list(a), 'n': n}
  yield {'k': 'alias'}


def run(case, ctx):
  {'mech': run_mech, 'rr': run_rr, 'par': run_par, 'cdf': run_cdf, 'pair': run_pair, 'alias': run_alias}[case['k']](case, ctx)


def directions(pld):
  """[(name, delta function, is add)] using each direction when it is exposed."""
  out = [('both', lambda e: float(pld.get_delta_for_epsilon(e)))]
  for n in ('_pmf_remove', '_pmf_add'):
    if hasattr(pld, n):
      p = getattr(pld, n)
      out.append((n[5:], lambda e, p=p: float(p.get_delta_for_epsilon(e))))
  return out


def judge(ctx, key, pld, rem, add, h, tail, pess, extra=()):
  for name, f in directions(pld):
    g = {'remove': rem, 'add': add}.get(name) or (lambda e: max(rem(e), add(e)))
    for e in list(EPS) + list(extra):
      ctx.step()
      got = f(e)
      if pess:
        lo, hi = g(e), g(e - h) + tail
      else:
        lo, hi = g(e + h) - tail, g(e)
      ctx.check(lo - TOL <= got <= hi + TOL, '%s %s eps=%g' % (key, name, e), 'delta %.13g outside [%.13g, %.13g]' % (got, lo, hi))
  ctx.trace()


def run_mech(case, ctx):
  d = case['d']
  key0 = '%(k)s %(p)g %(w)s' % d + (' t=%s' % d['t'] if d.get('t') else '')
  rem, add = noise.model(dict(d, add=False)), noise.model(dict(d, add=True))
  o = noise.real(dict(d, add=False))
  c = o.connect_dots_bounds()
  span = (c.epsilon_upper - c.epsilon_lower) if c.epsilon_upper is not None else abs(
      rem.loss(c.lower_x) - rem.loss(c.upper_x))
  top = [x for x in (c.epsilon_upper, c.epsilon_lower) if x is not None]
  q0 = math.fsum(w for w, s in d['w'] if s == 0)
  if q0:
    top += [math.log(q0), -math.log(q0)]
  for h in case['hs']:
    if span / h > case['span']:
      ctx.count('skipped: too many grid points')
      continue
    extra = [x for x in top if math.isfinite(x)] + [k * h for k in (-7, -2, -1, 1, 2, 3, 5, 11)]
    bounds = [-50, -7] if d['k'] in ('gauss', 'mix') else [-50]
    for bound in bounds:
      for pess in (True, False):
        for dots in (True, False):
          x = noise.real_pld(d, h, pess, dots, bound)
          tail = math.exp(bound) * 2
          key = '%s h=%g bound=%g pess=%s dots=%s' % (key0, h, bound, pess, dots)
          # numeric inversion places bucket borders within 1e-6
          hh = h + (1e-4 if d['k'] == 'mix' else 0)
          judge(ctx, key, x, rem.delta, add.delta, hh, tail, pess, extra)
          if dots and pess:
            # connect-the-dots is exact on its support
            for name, f in directions(x)[1:]:
              g = (rem if name == 'remove' else add).delta
              for k in range(-12, 13):
                ctx.step()
                ctx.check(f(k * h) <= g(k * h) + tail + 1e-9 or not inside(d, name, c, k * h), key + ' %s grid point %d' % (
                    name, k), 'delta %.13g, exact %.13g' % (f(k * h), g(k * h)))
          ctx.state(key)


def inside(d, name, c, e):
  """Continuous noise: every multiple of the interval in the range is used."""
  if d['k'] in ('dlap', 'dgauss') or c.epsilon_upper is None:
    return False
  sgn = -1 if name == 'add' else 1
  lo, hi = (c.epsilon_lower, c.epsilon_upper) if sgn == 1 else (-c.epsilon_upper, -c.epsilon_lower)
  return lo <= e <= hi


def run_rr(case, ctx):
  n, p = case['n'], case['p']
  P, Q = R.rr_pair(p, n, False)
  rem, add = pl.Exact(pl.atoms(P, Q)), pl.Exact(pl.atoms(Q, P))
  for special in (False, True):
    if special:
      P, Q = R.rr_pair(p, n, True)
      rem, add = pl.Exact(pl.atoms(P, Q)), pl.Exact(pl.atoms(Q, P))
    for h in (0.5, 0.1, 0.013):
      for pess in (True, False):
        kw = dict(pessimistic_estimate=pess, value_discretization_interval=h)
        if special:
          if 'neighboring_relation' not in inspect.signature(L.from_randomized_response).parameters:
            continue
          import dp_accounting
          kw['neighboring_relation'] = dp_accounting.NeighboringRelation.REPLACE_SPECIAL
        key = 'rr p=%g k=%d special=%s h=%g pess=%s' % (p, n, special, h, pess)
        try:
          x = L.from_randomized_response(p, n, **kw)
        except ValueError:
          ctx.check(p <= 0 or p >= 1 or n <= 1, key, 'refused')
          continue
        judge(ctx, key, x, rem, add, h, 0.0, pess)
        ctx.state(key)


def run_par(case, ctx):
  e0, dl = case['eps'], case['delta']
  par = common.DifferentialPrivacyParameters(e0, dl)
  t = math.exp(-e0)
  at = [(math.inf, dl)] + [(e0, (1 - dl) / (1 + t)), (-e0, (1 - dl) * t / (1 + t))]
  ex = pl.Exact([a for a in at if a[1] > 0])
  for h in case['hs']:
    x = L.from_privacy_parameters(par, h)
    key = 'eps=%g delta=%g h=%g' % (e0, dl, h)
    judge(ctx, key, x, ex, ex, h, 0.0, True, [e0, e0 + h, e0 - h / 2, -e0])
    got = float(x.get_delta_for_epsilon(e0 + h * (1 + 1e-9)))
    ctx.check(abs(got - dl) <= 1e-12, key, 'delta %r beyond the guarantee' % got)
    eps = float(x.get_epsilon_for_delta(dl))
    ctx.step()
    ctx.check(eps <= e0 + h + 1e-9 and (eps >= e0 - 1e-9 or dl > 0 and ex(eps) <= dl + 1e-12 or dl == 1), key,
              'epsilon %r for the given delta' % eps)
    ctx.state(key)


def run_cdf(case, ctx):
  p = case['p']
  d = {'k': case['kind'], 'p': p, 'w': [(1.0, 1.0)], 'add': False}
  m = noise.model(d)
  if case['kind'] == 'gauss':
    F = R.gaussian_loss_cdfs(p)[0]
  else:
    F = R.laplace_loss_cdfs(p)[0]
  for h in (0.5, 0.1, 0.03):
    for tail in (1e-15, 1e-3, 0.1):
      for pess in (True, False):
        x = L.create_from_cdf(lambda l: float(F(np.array([l]))[0]), pess, h, tail)
        key = 'cdf of %s %g h=%g tail=%g pess=%s' % (case['kind'], p, h, tail, pess)
        judge(ctx, key, x, m.delta, m.delta, h, tail, pess)
        ctx.state(key)


def run_pair(case, ctx):
  """Two finite output laws, given by their logarithms, with and without outcomes too rare to be listed."""
  n = case['n']
  P = [x / n for x in case['a']]
  rare = 1e-3
  for b in pl.simplex(n, 3):
    Q = [x / n for x in b]
    for U, V in ((P, Q), ([x * (1 - 3 * rare) for x in P] + [rare, 2 * rare], [x * (1 - 2 * rare) for x in Q] + [rare / 2, 1.5 * rare])):
      rem, add = pl.Exact(pl.atoms(U, V)), pl.Exact(pl.atoms(V, U))
      for trunc in (-math.inf, math.log(1.2 * rare), math.log(0.2)):
        # what may be moved to infinity, or dropped
        tr = sum(x for x in U if pl.log(x) <= trunc), sum(x for x in V if pl.log(x) <= trunc)
        for h in (0.3, 0.01):
          for pess in (True, False):
            for sym in (True, False):
              x = pl.from_pair(U, V, h, pess, sym, trunc)
              key = 'pair %s %s trunc=%g h=%g pess=%s sym=%s' % (U, V, trunc, h, pess, sym)
              judge(ctx, key, x, rem, rem if sym else add, h, tr[0] if sym else max(tr), pess)
    ctx.state((tuple(P), tuple(Q)))


ALIASES = [('from_laplace_mechanism', (1.3,), {'sensitivity': 2}), ('from_gaussian_mechanism', (1.3,), {'sensitivity': 2}),
           ('from_discrete_laplace_mechanism', (0.7,), {'sensitivity': 3}),
           ('from_discrete_gaussian_mechanism', (1.7,), {'sensitivity': 3}),
           ('from_randomized_response', (0.4, 5), {}), ('identity', (), {}),
           ('from_privacy_parameters', (common.DifferentialPrivacyParameters(0.7, 0.01),), {})]


def run_alias(case, ctx):
  for name, args, kw in ALIASES:
    params = inspect.signature(getattr(L, name)).parameters
    for h in (0.1, 0.3):
      for q in ((1.0, 0.3) if 'sampling_prob' in params else (1.0,)):
        for pess in ((True, False) if 'pessimistic_estimate' in params else (True,)):
          k = dict(kw, value_discretization_interval=h)
          if 'sampling_prob' in params:
            k['sampling_prob'] = q
          if 'pessimistic_estimate' in params:
            k['pessimistic_estimate'] = pess
          old = getattr(L.PrivacyLossDistribution, name, None)
          if old is None:
            continue
          a = getattr(L, name)(*args, **k)
          ko = {x: v for x, v in k.items() if x in inspect.signature(old).parameters}
          if len(ko) < len(k) and q != 1.0:
            continue
          b = old(*args, **ko)
          for e in EPS:
            ctx.step()
            u, v = float(a.get_delta_for_epsilon(e)), float(b.get_delta_for_epsilon(e))
            tol = 0.25 if 'laplace' in name or 'gauss' in name else 1e-12  # the older entry points use buckets
            ctx.check(abs(u - v) <= tol, 'deprecated %s h=%g q=%g pess=%s' % (name, h, q, pess), 'deltas %r and %r' % (u, v))
          ctx.trace()
  ctx.state('alias')
  ctx.trace({'aliases': [a[0] for a in ALIASES]})
