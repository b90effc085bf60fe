"""Mechanism loss functions match the definition of privacy loss."""
import math

import numpy as np

from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_mechanism as M
from mc import noise

PROPERTY = 'L05'
LEVEL = 'model_checking'
RULE = '''full product of five noise kinds, noise levels, sensitivities, sampling rates, adjacency directions and
truncation bounds; for each, every outcome and every loss of a grid that contains the kinks, boundaries and infinities,
every epsilon of a ladder; compared with an independent model of the two output laws'''
ASSUMPTIONS = ['slack 1e-12 absolute on probabilities, 1e-9 relative on losses',
               'numeric inversion of mixtures is allowed 2e-6 in the outcome (its documented precision is 1e-6)']

QS = [1.0, 0.999, 0.5, 0.1, 1e-3]
EPS = [-1000.0, -20.0, -6.0, -2.0, -1.0, -0.7, -0.3, -0.1, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 0.05, 0.1, 0.3, 0.6931471805599453,
       0.7, 1.0, 2.0, 4.0, 9.0, 20.0, 100.0, 1000.0]
MIXES = [[(1.0, 1.0)], [(0.5, 0), (0.5, 1)], [(0.9, 0), (0.07, 1), (0.03, 2)], [(0.3, 0.5), (0.7, 2)], [(0.2, 0), (0.8, 0.1)],
         [(0.0, 5), (0.25, 0), (0.75, 1)], [(0.999, 0), (0.001, 3)], [(0.1, 0.1), (0.2, 1), (0.7, 1.1)], [(0.7, 1.1), (0.2, 1), (0.1, 0.5)], [(1e-9, 1), (1 - 1e-9, 0)]]


def configs(tier):
  t = tier == 'thorough'
  qs = QS + ([0.9, 0.01, 1e-5] if t else [])
  out = []
  for p in [0.001, 0.05, 0.3, 1, 4.0, 60.0] + ([0.0007, 0.017, 0.6, 1.7, 11, 1e4] if t else []):
    for s in [1, 0.2, 3.0] + ([0.01, 10, 1e3] if t else []):
      for q in qs:
        out.append({'k': 'lap', 'p': p, 'w': noise.sampled(q, s)})
        if p >= 0.03 * s:
          out.append({'k': 'gauss', 'p': p, 'w': noise.sampled(q, s)})
  for p in [0.1, 0.3, 1.0, 5.0] + ([0.03, 2.2, 20.0] if t else []):
    for w in MIXES:
      out.append({'k': 'mix', 'p': p, 'w': w})
  for p in [0.02, 0.5, 1.0, 3.7, 40.0] + ([0.1, 0.9, 1.5, 10] if t else []):
    for s in [1, 2, 5] + ([3, 4, 8, 30] if t else []):
      for q in qs:
        out.append({'k': 'dlap', 'p': p, 'w': noise.sampled(q, s)})
  for p in [0.2, 0.7, 1.0, 4.4] + ([0.4, 2.0, 15.0] if t else []):
    for s in [1, 2, 5] + ([3, 10] if t else []):
      for q in qs:
        for b in [None, 1, 3, 12]:
          if 2 * (b or math.ceil(11.6 * p)) >= s:
            out.append({'k': 'dgauss', 'p': p, 'w': noise.sampled(q, s), 't': b})
  return out


def cases(tier):
  for c in configs(tier):
    for add in (False, True):
      yield {'k': 'loss', 'd': dict(c, add=add)}
  for add in (False, True):
    yield {'k': 'loss', 'd': {'k': 'mix', 'p': 1.0, 'w': [(0.2, 0), (0.6, 1), (0.2, 2)], 'add': add}, 'ints': True}
  eps = [0.01, 0.3, 1.0, 3.0, 8.0] + ([1e-4, 0.1, 0.7, 15.0] if tier == 'thorough' else [])
  for e in eps:
    for dl in [0.0, 1e-9, 1e-3, 0.2]:
      for s in [1, 3]:
        yield {'k': 'guarantee', 'eps': e, 'delta': dl, 's': s, 'qs': QS}


def run(case, ctx):
  (run_loss if case['k'] == 'loss' else run_guarantee)(case, ctx)


def outcomes(d):
  cs = sorted({float(c) for _, c in d['w']})
  m = cs[-1]
  sg = 1 if d['add'] else -1
  if d['k'] in ('dlap', 'dgauss'):
    r = (d.get('t') or math.ceil(11.6 * d['p'])) if d['k'] == 'dgauss' else 12
    m = int(m)
    pts = set(range(-4 - m, 5 + m)) | {sg * m + i for i in range(-3, 4)} | {-r + i for i in range(-m - 2, m + 3)} | {
        r + i for i in range(-m - 2, m + 3)} | {x for x in range(-r, r + 1, max(1, r // 15))}
    return sorted(int(x) for x in pts)
  base = [0, 1e-9, 0.1, 0.5, 1, 1.5, 2, 3, 7, 20, 38]
  pts = {sg * c / 2 for c in cs} | {sg * c for c in cs}
  for b in base:
    pts |= {b * d['p'], -b * d['p'], sg * m + b * d['p'], sg * m - b * d['p'], b * m * sg / 3, -b * m * sg}
  return sorted(float(x) for x in pts)


def close(a, b, rel=1e-9, ab=1e-12):
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= ab + rel * abs(b)


def run_loss(case, ctx):
  d = case['d']
  key = '%(k)s %(p)g %(w)s add=%(add)s' % d + (' t=%s' % d['t'] if d.get('t') else '')
  ref, obj = noise.model(d), noise.real(d)
  scale = max(1.0, float(max(c for _, c in d['w'])) / d['p'])
  xs = outcomes(d)
  losses = []
  for x in xs:
    want = ref.loss(x) if ref.discrete else float(ref.loss(x))
    ctx.step()
    try:
      got = obj.privacy_loss(x)
    except ValueError:
      ctx.check(want is None, key + ' x=%r' % x, 'loss refused, should be %r' % want)
      continue
    if want is None:
      ctx.check(False, key + ' x=%r' % x, 'loss %r at an impossible outcome' % got)
      continue
    losses.append(want)
    # log1p-type cancellation near loss 0 is absolute in scale
    ctx.check(close(float(got), want, 1e-9, 1e-12 * scale), key + ' x=%r' % x, 'loss %r, should be %r' % (got, want))
    up, lo = (ref.up_cdf(x), ref.lo_cdf(x)) if ref.discrete else (math.exp(ref.up_logcdf(x)), math.exp(ref.lo_logcdf(x)))
    gu, gl = float(obj.mu_upper_cdf(x)), math.exp(float(obj.mu_lower_log_cdf(x)))
    ctx.check(close(gu, up), key + ' x=%r' % x, 'upper cdf %r, should be %r' % (gu, up))
    ctx.check(close(gl, lo), key + ' x=%r' % x, 'lower cdf %r, should be %r' % (gl, lo))
  # vectors agree with scalars
  vu, vl = obj.mu_upper_cdf(xs), obj.mu_lower_log_cdf(xs)
  ctx.check(np.allclose(vu, [float(obj.mu_upper_cdf(x)) for x in xs], rtol=1e-12, atol=0), key, 'vector cdf differs')
  ctx.check(np.allclose(vl, [float(obj.mu_lower_log_cdf(x)) for x in xs], rtol=1e-9, atol=1e-12), key,
            'vector log cdf differs')
  # divergence
  fin = [l for l in losses if math.isfinite(l)]
  q0 = math.fsum(w for w, c in d['w'] if c == 0)
  eps = set(EPS) | {f * l for l in (max(fin), min(fin)) for f in (0.3, 0.999, 1 - 1e-6, 1, 1 + 1e-6)}
  if q0:
    eps |= {f * math.log(q0) * s for s in (-1, 1) for f in (0.99, 1 - 1e-5, 1 - 3e-7, 1 - 1e-11, 1, 1 + 1e-11, 1 + 1e-6)}
  eps = sorted(eps)
  # within 1e-9 of the largest possible loss the code rounds to that loss
  lim = 1.1e-9 * -math.log(q0) if q0 else 0.0
  tolf = lambda e: 1e-12 + (lim if abs(abs(e) + math.log(q0 or 1)) <= lim else 0)
  ints = [-1, 0, 1, 2]
  if d['k'] == 'mix':
    ints = []
    if case.get('ints'):
      v = [float(obj.get_delta_for_epsilon(e)) for e in (-1, 0, 1, 2)]
      w = [ref.delta(e) for e in (-1, 0, 1, 2)]
      ctx.check(np.allclose(v, w, atol=1e-11), 'integer epsilons ' + key, 'deltas %s, should be %s' % (v, w))
  for e in eps + ints:
    ctx.step()
    tol = tolf(e)
    got, want = obj.get_delta_for_epsilon(e), ref.delta(e)
    ctx.check(close(got, want, 1e-9, tol), key + ' eps=%g' % e, 'delta %r, should be %r' % (got, want))
  for vec in (np.array(eps), list(eps)) + ((ints, np.arange(3)) if ints else ()):
    v = obj.get_delta_for_epsilon(vec)
    bad = [e for e, g in zip(vec, v) if not close(g, ref.delta(float(e)), 1e-9, tolf(e))]
    ctx.check(not bad and len(v) == len(vec), key, 'list of deltas wrong at %s' % bad[:3])
  inverse(d, ref, obj, sorted(set(EPS) | {l for l in losses if abs(l) < 1e5} | set(eps)), ctx, key)
  tails(d, ctx, key, ref)
  ctx.state(key)
  ctx.trace()


def inverse(d, ref, obj, ls, ctx, key):
  q0 = math.fsum(w for w, c in d['w'] if c == 0)
  top = -math.log(q0) if d['add'] and q0 > 0 else math.inf
  bot = math.log(q0) if not d['add'] and q0 > 0 else -math.inf
  mixed = d['k'] == 'mix'
  for l in ls:
    if mixed and abs(l) > 1e3:
      continue
    ctx.step()
    tol = 1e-9 * max(1.0, abs(l))
    try:
      x = obj.inverse_privacy_loss(l)
    except ValueError:
      ctx.check(l > top - tol if d['add'] else l <= bot + tol, key + ' l=%r' % l, 'inverse refused')
      continue
    if ref.discrete:
      if x == -math.inf:
        ok = all(v is None or v < l + tol for v in (ref.loss(i) for i in range(-ref.r - 5, ref.r + 5)))
      elif x == math.inf:
        ok = all(v is None or v > l - tol for v in (ref.loss(i) for i in range(-ref.r - 5, ref.r + 5)))
      else:
        a, b = ref.loss(int(x)), ref.loss(int(x) + 1)
        ok = int(x) == x and (a is None or a > l - tol) and (b is None or b < l + tol)
        # both neighbours impossible: the cut must still split the mass properly
        if a is None and b is None:
          ok = x < -ref.r or x > ref.r
      ctx.check(ok, key + ' l=%r' % l, 'inverse %r' % x)
    else:
      dx = (2e-6 if mixed else 1e-9 * max(1.0, abs(x) if math.isfinite(x) else 1.0))
      a = ref.loss(x - dx) if math.isfinite(x) else None
      b = ref.loss(x + dx) if math.isfinite(x) else None
      if x == -math.inf:
        ok = ref.loss(-ref.R) < l + tol
      elif x == math.inf:
        ok = ref.loss(ref.R) > l - tol
      else:
        ok = a > l - tol and b < l + tol
        if d['k'] == 'lap' and ok and not mixed:
          # the largest such outcome: strictly beyond it the loss drops
          ok = float(ref.loss(x + 0.05 * d['p'] + dx)) < l or l <= float(ref.loss(ref.R)) + tol
      ctx.check(ok, key + ' l=%r' % l, 'inverse %r: loss around it %r .. %r' % (x, a, b))


def tails(d, ctx, key, ref):
  """Replacing the discarded outcomes by the reported tail stays on the safe side."""
  bounds = [-50, -12, -3] if d['k'] in ('gauss', 'mix') else [None]
  for bound in bounds:
    for pess in (True, False):
      o = noise.real(d, pess, bound if bound is not None else -50)
      t = o.privacy_loss_tail()
      slack = 1e-12 + (math.exp(bound) if bound is not None else 0)
      lo = t.lower_x_truncation - (1 if ref.discrete else 0)
      k2 = key + ' bound=%s pess=%s' % (bound, pess)
      for e in EPS:
        ctx.step()
        got = ref.part(lo, t.upper_x_truncation, e) if lo < t.upper_x_truncation else 0.0
        for l, m in t.tail_probability_mass_function.items():
          if l > e:
            got += float(m) * (1 if l == math.inf else -math.expm1(e - l))
        want = ref.delta(e)
        a, b = (1e-11, slack + 1e-11) if pess or bound is None else (slack + 1e-11, 1e-11)
        ctx.check(want - a <= got <= want + b, k2 + ' eps=%g' % e, 'tail %s outside [%r, %r] gives delta %r, exact %r' % (
            dict(t.tail_probability_mass_function), lo, t.upper_x_truncation, got, want))
      c = o.connect_dots_bounds()
      ctx.step()
      if ref.discrete:
        hi = [ref.loss(x) for x in range(c.lower_x, c.upper_x + 1)]
        ctx.check(all(v is not None for v in hi), k2, 'bounds [%s, %s] contain impossible outcomes' % (c.lower_x, c.upper_x))
        inside = {round(v, 9) for v in hi if v is not None}
        for x in range(-ref.r - 2, ref.r + 3):
          v = ref.loss(x)
          if v is not None and math.isfinite(v) and ref.up[ref.x == x][0] > 0:
            ctx.check(round(v, 9) in inside or min(abs(v - i) for i in inside) < 1e-6, k2,
                      'loss %r of outcome %d not covered by [%s, %s]' % (v, x, c.lower_x, c.upper_x))
      else:
        ctx.check(ref.delta(c.epsilon_upper) <= slack, k2, 'divergence %r at the upper epsilon %r' % (
            ref.delta(c.epsilon_upper), c.epsilon_upper))
        cut = ref.cut(c.epsilon_lower - 1e-9 * max(1, abs(c.epsilon_lower)))
        below = float(ref.up_sf(cut)) if math.isfinite(cut) else (0.0 if cut > 0 else 1.0)
        ctx.check(below <= slack, k2, 'mass %r of losses below the lower epsilon %r' % (below, c.epsilon_lower))


def run_guarantee(case, ctx):
  eps, delta, s = case['eps'], case['delta'], case['s']
  par = common.DifferentialPrivacyParameters(eps, delta)
  for q in case['qs']:
    for kind, cls in (('lap', M.LaplacePrivacyLoss), ('gauss', M.GaussianPrivacyLoss),
                      ('dlap', M.DiscreteLaplacePrivacyLoss), ('dgauss', M.DiscreteGaussianPrivacyLoss)):
      if 'gauss' in kind and delta == 0:
        continue
      for adj in (M.AdjacencyType.ADD, M.AdjacencyType.REMOVE):
        key = '%s from eps=%g delta=%g sens=%d q=%g %s' % (kind, eps, delta, s, q, adj.name)
        o = cls.from_privacy_guarantee(par, sensitivity=s, sampling_prob=q, adjacency_type=adj)
        p = {'lap': lambda: o.parameter, 'gauss': lambda: o.standard_deviation, 'dlap': lambda: o.parameter,
             'dgauss': lambda: o._sigma}[kind]()  # pylint: disable=protected-access
        dl = delta if 'gauss' in kind else 0.0  # the Laplace helpers meet pure epsilon
        ctx.step()
        ctx.check(o.sensitivity == s and o.sampling_prob == q and o.adjacency_type == adj, key, 'other parameters changed')
        up = lambda x: x * (1 - 1e-5) if kind == 'dlap' else x * (1 + 1e-5)
        for add in (False, True):
          r = noise.model({'k': kind, 'p': p, 'w': noise.sampled(q, s), 'add': add})
          got = r.delta(eps)
          ctx.check(got <= dl * (1 + 1e-9) + 1e-13, key, 'delta %r at noise %r' % (got, p))
        # less noise must fail (removal is the worse direction)
        less = p * (1 + 1e-4) if kind == 'dlap' else p * (1 - 1e-4) - 1.1e-7
        if less > 0 and p > 1e-3:
          r = noise.model({'k': kind, 'p': less, 'w': noise.sampled(q, s), 'add': False})
          ctx.check(r.delta(eps) > dl or kind == 'dgauss', key, 'noise %r is not minimal: %r still meets it' % (p, less))
        ctx.trace()
  ctx.state((eps, delta, s))
  ctx.trace({'eps': eps, 'delta': delta})
