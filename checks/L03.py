"""Queries on a loss distribution agree with each other."""
import itertools
import math

import numpy as np

from dp_accounting.pld import privacy_loss_distribution as PL
from mc import pl

PROPERTY = 'L03'
LEVEL = 'model_checking'
RULE = '''every loss distribution with probabilities on a lattice over a set of losses (zero probabilities and infinite
mass included), for losses from tiny to huge, sparse, dense and asymmetric; every epsilon and delta of a grid with
extremes; the composed query on every pair of a sub-lattice; plus distributions of real mechanisms'''
ASSUMPTIONS = ['floating-point slack 1e-11', 'epsilon compared up to 1e-9']

KEYS = (-3, -1, 0, 1, 2)
HS = [0.5, 1e-4, 3.0, 100.0, 360.0]
TOL = 1e-11
DELTAS = [-0.1, 0.0, 1e-300, 1e-15, 1e-6, 0.01, 0.1, 0.2, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.999, 1.0, 1.5]


def eps_grid(h):
  e = [-math.inf, -1e4, -801.0, -720.0, -700.0, -5.0, -1.0, -1e-5, 0.0, 1e-12, 5e-5, 1e-4, 0.3, 0.5, 1.0, 2.0, 10.0, 100.0, 700.0, 709.0,
       710.5, 719.9, 720.0, 740.0, 750.0, 800.0, 1e4, 1e300, math.inf]
  for k in range(-4, 4):
    e += [k * h, k * h + h / 3]
  return sorted(set(e))


def cases(tier):
  n = 4 if tier == 'quick' else 6
  lat = pl.simplex(n, 6)
  for hi in range(len(HS)):
    for lo in range(0, len(lat), 21):
      yield {'k': 'one', 'n': n, 'h': hi, 'lo': lo, 'hi': min(len(lat), lo + 21)}
    m = 2 if tier == 'quick' else 3
    for i in range(len(pl.simplex(m, 6))):
      yield {'k': 'pair', 'n': m, 'h': hi, 'i': i}
  for name in range(len(REAL)):
    yield {'k': 'real', 'i': name}


def lattice_pmf(t, n, h):
  """Masses of a lattice point; losses too negative to be possible get none."""
  d = {k: c / n for k, c in zip(KEYS, t)}
  for k in KEYS:
    if k * h < -690:
      d[k] = 0.0
  return d, t[-1] / n


def ref_delta(d, inf, h, eps):
  s = [inf]
  for k, p in d.items():
    if p > 0 and k * h > eps:
      s.append(-math.expm1(eps - k * h) * p)
  return math.fsum(s)


def ref_eps(d, inf, h, delta):
  if inf > delta:
    return math.inf
  if ref_delta(d, inf, h, 0.0) <= delta:
    return 0.0
  # epsilon is the root of mu - e^eps S on one of the intervals
  losses = sorted((k * h for k, p in d.items() if p > 0), reverse=True)
  prob = {k * h: p for k, p in d.items()}
  mu, at = inf, []
  for i, l in enumerate(losses):
    mu = math.fsum([mu, prob[l]])
    at.append(l)
    nxt = losses[i + 1] if i + 1 < len(losses) else -math.inf
    if mu <= delta:
      continue
    s = math.fsum(prob[x] * math.exp(l - x) for x in at)
    e = l + math.log((mu - delta) / s)
    if e >= nxt:
      return max(e, 0.0)
  return 0.0


def run(case, ctx):
  if case['k'] == 'real':
    return run_real(case, ctx)
  n, h = case['n'], HS[case['h']]
  lat = pl.simplex(n, 6)
  eps = eps_grid(h)
  if case['k'] == 'pair':
    return run_pair(case, ctx, lat, n, h, eps)
  for i in range(case['lo'], case['hi']):
    d, inf = lattice_pmf(lat[i], n, h)
    d2, inf2 = lattice_pmf(lat[(i * 7 + 5) % len(lat)], n, h)
    forms = {
        'sparse': (PL.PrivacyLossDistribution.create_from_rounded_probability(d, inf, h), [(d, inf)]),
        'sparse, no zeros': (PL.PrivacyLossDistribution.create_from_rounded_probability(
            {k: p for k, p in d.items() if p}, inf, h, False), [(d, inf)]),
        'asymmetric': (PL.PrivacyLossDistribution.create_from_rounded_probability(
            d, inf, h, True, d2, inf2, False), [(d, inf), (d2, inf2)])}
    forms['dense'] = (pl.dense(forms['sparse'][0]), [(d, inf)])
    forms['dense asymmetric'] = (pl.dense(forms['asymmetric'][0]), [(d, inf), (d2, inf2)])
    for name, (x, parts) in forms.items():
      key = 'h=%g %s %s' % (h, name, parts)
      rd = [max(ref_delta(a, b, h, e) for a, b in parts) for e in eps]
      queries(ctx, key, x, eps, rd, lambda q: max(ref_eps(a, b, h, q) for a, b in parts))
      ctx.state(key)
      ctx.trace({'h': h, 'form': name, 'parts': repr(parts)})


def queries(ctx, key, x, eps, rd, reps, deltas=DELTAS, tol=TOL):
  sc = [x.get_delta_for_epsilon(e) for e in eps]
  for e, a, b in zip(eps, sc, rd):
    ctx.step()
    ctx.check(abs(a - b) <= tol, key, 'delta(%g) = %r, by definition %r' % (e, float(a), b))
  for form in (list(eps), np.array(eps), tuple(eps)):
    v = x.get_delta_for_epsilon(form)
    ctx.step()
    ok = len(v) == len(eps) and all(abs(float(a) - b) <= tol for a, b in zip(v, rd))
    ctx.check(ok, key, 'many epsilons at once: %s, one at a time: %s' % (
        [(e, float(a)) for e, a, b in zip(eps, v, rd) if not abs(float(a) - b) <= tol][:3],
        [(e, b) for e, a, b in zip(eps, v, rd) if not abs(float(a) - b) <= tol][:3]))
  for sub in ([eps[3]], [eps[9], eps[9]], eps[5:9], eps[-6:], eps[:4], []):
    v = x.get_delta_for_epsilon(sub)
    w = [b for e in sub for b in [rd[eps.index(e)]]]
    ctx.step()
    ctx.check(len(v) == len(sub) and all(abs(float(a) - b) <= tol for a, b in zip(v, w)), key,
              'delta(%s) = %s, expected %s' % (sub, list(v), w))
  try:
    x.get_delta_for_epsilon([1.0, 0.5])
    ctx.fail(key, 'unsorted epsilons accepted')
  except ValueError:
    pass
  for q in deltas:
    want, got = reps(q), float(x.get_epsilon_for_delta(q))
    ctx.step()
    ctx.check(got == want or abs(got - want) <= 1e-9 * max(1.0, abs(want)), key,
              'epsilon(%g) = %r, smallest valid is %r' % (q, got, want))


def run_pair(case, ctx, lat, n, h, eps):
  d, inf = lattice_pmf(lat[case['i']], n, h)
  mk = PL.PrivacyLossDistribution.create_from_rounded_probability
  x = mk(d, inf, h)
  for j, t in enumerate(lat):
    d2, inf2 = lattice_pmf(t, n, h)
    y = mk(d2, inf2, h)
    za = mk(d, inf, h, True, d2, inf2, False)
    comp = conv(d, inf, d2, inf2)
    sq = conv(d, inf, d, inf)
    sq2 = conv(d2, inf2, d2, inf2)
    key = 'h=%g (%s, %g) with (%s, %g)' % (h, d, inf, d2, inf2)
    for a, b, parts, name in ((x, y, [comp], 'sparse'), (pl.dense(x), y, [comp], 'dense, sparse'), (x, pl.dense(y), [comp], 'sparse, dense'),
                              (za, za, [sq, sq2], 'asymmetric'), (za, x, [sq, comp], 'asymmetric, symmetric'), (x, pl.dense(za), [sq, comp], 'symmetric, dense asymmetric')):
      built = a.compose(b, 0)
      for e in eps:
        want = max(ref_delta(c, i, h, e) for c, i in parts)
        g1 = float(a.get_delta_for_epsilon_for_composed_pld(b, e))
        g2 = float(built.get_delta_for_epsilon(e))
        ctx.step(2)
        ctx.check(abs(g1 - want) <= TOL, key + ' ' + name, 'delta(%g) of the composition queried = %r, true %r' % (e, g1, want))
        ctx.check(abs(g2 - want) <= TOL, key + ' ' + name, 'delta(%g) of the composition built = %r, true %r' % (e, g2, want))
      ctx.trace()
    ctx.state(key)


def conv(d, inf, d2, inf2):
  out = {}
  for a, p in d.items():
    for b, q in d2.items():
      out[a + b] = out.get(a + b, 0.0) + p * q
  return out, inf + inf2 - inf * inf2


REAL = [
    lambda: PL.from_gaussian_mechanism(0.8, value_discretization_interval=0.01),
    lambda: PL.from_gaussian_mechanism(0.02, value_discretization_interval=0.5),
    lambda: PL.from_gaussian_mechanism(1.0, value_discretization_interval=0.005, sampling_prob=0.1),
    lambda: PL.from_laplace_mechanism(0.5, value_discretization_interval=0.01, sampling_prob=0.3),
    lambda: PL.from_laplace_mechanism(0.001, value_discretization_interval=0.5),
    lambda: PL.from_laplace_mechanism(2.0, value_discretization_interval=0.001, use_connect_dots=False),
    lambda: PL.from_randomized_response(0.3, 5, value_discretization_interval=0.01).self_compose(9),
    lambda: PL.from_discrete_gaussian_mechanism(0.4, value_discretization_interval=0.02),
    lambda: PL.from_discrete_laplace_mechanism(0.7, value_discretization_interval=0.02).self_compose(30),
    lambda: PL.from_gaussian_mechanism(5.0, value_discretization_interval=0.01, pessimistic_estimate=False).self_compose(20),
    lambda: PL.from_mixture_gaussian_mechanism(1.0, [0., 1., 2.], [.5, .25, .25], value_discretization_interval=0.01),
    lambda: pl.from_pair([1 - 1e-320, 1e-320], [0.5, 0.5], 0.5).compose(PL.from_laplace_mechanism(1, value_discretization_interval=0.5)),
    lambda: PL.from_two_probability_mass_functions({0: -1.0, 1: math.log1p(-math.exp(-1))}, {0: -800.0, 1: 0.0}, value_discretization_interval=1.0),
    lambda: pl.dense(PL.from_two_probability_mass_functions({0: -800.0, 1: 0.0}, {0: -1.0, 1: math.log1p(-math.exp(-1))}, value_discretization_interval=1.0, symmetric=False)),
    lambda: PL.from_two_probability_mass_functions({0: -800.0, 1: 0.0}, {0: -1.0, 1: math.log1p(-math.exp(-1))}, value_discretization_interval=1.0, symmetric=False).self_compose(8),
    lambda: PL.identity(0.1), lambda: PL.identity(0.1).self_compose(5), lambda: pl.from_pair([1., 0.], [0., 1.], 0.1),
    lambda: pl.from_pair([1., 0.], [0., 1.], 0.1).compose(PL.identity(0.1)).self_compose(3),
]


def run_real(case, ctx):
  x = REAL[case['i']]()
  key = 'real mechanism #%d' % case['i']
  eps = sorted(set([-750.0, -710.0] + [round(0.1 * k - 5, 10) for k in range(130)] + [10.0 * k for k in range(1, 90)] + [1e-7, 709.5, 1e5, math.inf]))
  sc = [float(x.get_delta_for_epsilon(e)) for e in eps]
  v = x.get_delta_for_epsilon(eps)
  for a, b, e in zip(sc, v, eps):
    ctx.step()
    ctx.check(abs(a - b) <= TOL, key, 'delta(%g): one query %r, many %r' % (e, a, float(b)))
    ctx.check(-TOL <= a <= 1 + TOL, key, 'delta(%g) = %r' % (e, a))
  for (e1, d1), (e2, d2) in zip(zip(eps, sc), zip(eps[1:], sc[1:])):
    ctx.check(d2 <= d1 + TOL, key, 'delta grows from %g (%r) to %g (%r)' % (e1, d1, e2, d2))
  # convex as a function of exp(epsilon)
  fin = [(math.exp(e), d) for e, d in zip(eps, sc) if -5 <= e <= 20]
  for (x1, d1), (x2, d2), (x3, d3) in zip(fin, fin[1:], fin[2:]):
    w = (x3 - x2) / (x3 - x1)
    ctx.check(d2 <= w * d1 + (1 - w) * d3 + TOL, key, 'delta not convex around exp(eps)=%g' % x2)
  inf = sc[-1]
  for d in [0.0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0, inf] + sc[::7]:
    e = float(x.get_epsilon_for_delta(d))
    ctx.step()
    if math.isinf(e):
      ctx.check(e > 0 and inf > d - TOL, key, 'epsilon(%r) is infinite though delta(inf) = %r' % (d, inf))
      continue
    at = float(x.get_delta_for_epsilon(e))
    ctx.check(e >= 0 and at <= d + TOL, key, 'epsilon(%r) = %r but delta there is %r' % (d, e, at))
    ctx.check(inf <= d + TOL, key, 'epsilon(%r) = %r is finite though delta(inf) = %r' % (d, e, inf))
    if e > 1e-6 and d > inf + 1e-9:
      below = float(x.get_delta_for_epsilon(e - 1e-6))
      ctx.check(below > d - TOL, key, 'epsilon(%r) = %r is not the smallest: delta(%r) = %r' % (d, e, e - 1e-6, below))
  ctx.trace(key)
  ctx.state(key)
