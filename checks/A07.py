"""Renyi losses per order: valid upper bounds, exact where a formula exists."""
import itertools
import math

import numpy as np

from mc import dp
from mc import ref

PROPERTY = 'A07'
LEVEL = 'model_checking'
RULE = '''the full product of parameter grids of every mechanism with a Renyi loss, at every order of a grid (fractional,
integer, infinite, next to one), under every relation that allows it, plus counts and compositions of two'''
ASSUMPTIONS = ['Poisson-sampled Gaussian compared with numerical integration of the definition; fractional orders the '
               'accountant excludes (reports as infinite) are counted, not failed',
               'sampling without replacement and repeat-and-select compared with concrete neighbouring inputs']

ORDERS = [1.005, 1.05, 1.09, 1.1, 1.3, 1.5, 2.0, 2.5, 3.0, 4.7, 5.0, 8.0, 9.5, 12.0, 16.0, 31.0, 32.0, 64.0]
INF = math.inf


def cases(tier):
  t = tier == 'thorough'
  for rel in ('AR', 'RO', 'RS'):
    for s in [0.1, 0.4, 0.5, 1, 1.0, 1.3, 2, 3.7, 10, 50.0, 1000.0]:
      yield {'k': 'G', 'rel': rel, 'd': ['G', s]}
    for b in [0.1, 0.3, 0.5, 1, 1.0, 2.0, 3.3, 8, 20.0, 100.0]:
      yield {'k': 'L', 'rel': rel, 'd': ['L', b]}
  for rel in ('RO', 'RS'):
    for p in [0.001, 0.01, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.97, 1.0]:
      for k in [1, 2, 3, 4, 5, 10, 50]:
        yield {'k': 'RR', 'rel': rel, 'd': ['RR', p, k]}
  qs = [0.001, 0.01, 0.05, 0.1, 0.2, 0.3, 0.45, 0.5, 0.6, 0.8, 0.95, 1.0]
  ss = [0.5, 0.7, 1.0, 1.5, 2.0, 4.0, 10.0]
  for rel in ('AR', 'RS'):
    for q in qs if t or rel == 'AR' else qs[1::4]:
      for s in ss if t or rel == 'AR' else ss[1::3]:
        yield {'k': 'PS', 'rel': rel, 'd': ['PS', q, ['G', s]]}
    for x in (['C', [['G', 2.0], ['G', 1.5]]], ['S', ['G', 3.0], 4], ['S', ['C', [['G', 4.0], ['S', ['G', 6.0], 2]]], 2],
              ['C', [['G', 2]]], ['C', [['S', ['G', 2.0], 1], ['C', [['G', 5.0]]]]]):
      for q in (0.05, 0.4, 1.0):
        yield {'k': 'PS', 'rel': rel, 'd': ['PS', q, x]}
  for n, m in [(2, 1), (3, 2), (4, 1), (10, 1), (10, 3), (10, 7), (10, 9), (10, 10), (10, 0), (100, 2), (100, 50), (1000, 1)]:
    for s in ss:
      yield {'k': 'WOR', 'rel': 'RO', 'd': ['WOR', n, m, ['G', s]]}
    yield {'k': 'WOR', 'rel': 'RO', 'd': ['WOR', n, m, ['C', [['G', 2.0], ['S', ['G', 3.0], 2]]]]}
  for s in (0.5, 1.0, 4.0):
    for n in range(1, 40 if not t else 300):
      yield {'k': 'T', 'rel': 'RS', 'd': ['T', s, n]}
    for a in (1, 2, 3, 4, 7, 8, 9):
      for b in (1, 2, 3, 5, 8):
        yield {'k': 'T', 'rel': 'RS', 'd': ['T', s, [a, b]]}
        yield {'k': 'T', 'rel': 'RS', 'd': ['T', s, [b, a, 6]]}
    for n in (63, 64, 65, 127, 128, 255, 256, 1000):
      yield {'k': 'T', 'rel': 'RS', 'd': ['T', s, [n]]}
  bases = {'AR': [['G', 1.0], ['G', 2.5], ['L', 1.0], ['C', [['G', 3.0], ['L', 2.0]]], ['RP', ['L', 2.0], 2.0, 1]],
           'RO': [['RR', 0.5, 2], ['RR', 0.2, 3], ['RR', 0.8, 4], ['RR', 0.02, 2], ['C', [['RR', 0.6, 2], ['RR', 0.7, 2]]],
                  ['RP', ['RR', 0.7, 2], 2.0, 0.5], ['L', 0.5]],
           'RS': [['RR', 0.5, 3], ['RR', 0.3, 2], ['S', ['RR', 0.8, 2], 2], ['RP', ['RR', 0.6, 2], 3.0, 'inf']]}
  for rel, bs in bases.items():
    for b in bs:
      for shape in (0, 0.1, 0.5, 1, 1.0, 2.0, 5, 'inf'):
        for mean in (1, 1.0, 1.2, 2.0, 3.5, 10.0, 100.0):
          yield {'k': 'RP', 'rel': rel, 'd': ['RP', b, mean, shape]}
  pool = {'AR': [['G', 1.0], ['L', 2.0], ['PS', 0.1, ['G', 1.0]], ['RP', ['G', 2.0], 2.0, 1]],
          'RO': [['G', 1.0], ['L', 2.0], ['RR', 0.3, 3], ['WOR', 10, 2, ['G', 1.0]]],
          'RS': [['G', 1.0], ['L', 2.0], ['RR', 0.3, 3], ['T', 2.0, 5], ['PS', 0.1, ['G', 1.0]]]}
  for rel, p in pool.items():
    for a, b in itertools.product(p, p):
      yield {'k': 'sum', 'rel': rel, 'd': [a, b]}


def rdp(rel, d, orders=None, count=1):
  acc = dp.accountant('RDP', rel, orders or ORDERS + [INF])
  acc.compose(dp.ev(d), count)
  return [float(x) for x in acc.rdp]


def same(x, y, rtol=1e-7, atol=1e-12):
  return x == y or (math.isfinite(y) and abs(x - y) <= rtol * abs(y) + atol)


def mix_renyi(s, q, a, cut):
  """Poisson-sampled Gaussian, from the definition."""
  if a == INF:
    return INF, -math.log1p(-q) if q < 1 else INF
  return (ref.renyi_gauss_mix(s, [1 - q, q], [0, 1], [1], [0], a), None)


def run(case, ctx):
  rel, d, k = case['rel'], case['d'], case['k']
  key = '%s %s' % (rel, d)
  if k == 'sum':
    a, b = rdp(rel, d[0]), rdp(rel, d[1])
    for na, nb in ((1, 1), (2, 3), (7, 1)):
      acc = dp.accountant('RDP', rel, ORDERS + [INF])
      acc.compose(dp.ev(d[0]), na).compose(dp.ev(d[1]), nb)
      for o, x, y, z in zip(ORDERS + [INF], acc.rdp, a, b):
        ctx.step()
        ctx.check(same(x, na * y + nb * z, 1e-9), key,
                  'order %s: %d+%d runs cost %s, not the sum %s' % (o, na, nb, x, na * y + nb * z))
    ctx.trace()
    ctx.state((rel, dp.tup(d)))
    return
  got = rdp(rel, d)
  orders = ORDERS + [INF]
  # the loss at an order does not depend on which other orders are tracked
  if k != 'RP':
    for i in (0, 6, 7, len(orders) - 1):
      alone = rdp(rel, d, [orders[i]])[0]
      ctx.step()
      ctx.check(same(alone, got[i], 1e-12), key, 'order %s alone: %s, among others: %s' % (orders[i], alone, got[i]))
    rev = rdp(rel, d, orders[::-1])[::-1]
    ctx.check(all(same(x, y, 1e-12) for x, y in zip(rev, got)), key, 'depends on the sequence of orders')
  else:
    n = len(orders)
    for perm in (list(range(n))[::-1], [(i + 7) % n for i in range(n)], sorted(range(n), key=lambda i: (i % 2, i))):
      moved = rdp(rel, d, [orders[i] for i in perm])
      ctx.step()
      ctx.check(all(same(x, got[i], 1e-9) for x, i in zip(moved, perm)), key, 'depends on the sequence of orders: %s became %s' % (got, [moved[perm.index(i)] for i in range(n)]))
  for o, g in zip(orders, got):
    ctx.step()
    if k == 'G':
      want = o / (2 * d[1]**2)
      ctx.check(same(g, want), key, 'order %s: %s, exact %s' % (o, g, want))
    elif k == 'L':
      want = 1 / d[1] if o == INF else ref.renyi_laplace(float(d[1]), o)
      ctx.check(same(g, want, 1e-6, 1e-10), key, 'order %s: %s, exact %s' % (o, g, want))
    elif k == 'RR':
      P, Q = ref.rr_pair(d[1], d[2], rel == 'RS')
      want = max(ref.renyi(P, Q, o), ref.renyi(Q, P, o))
      ctx.check(same(g, want, 1e-6, 1e-10), key, 'order %s: %s, exact %s' % (o, g, want))
    elif k == 'PS':
      q, s = d[1], dp.eff_sigma(d[2])
      if o == INF:
        ctx.check(g == INF, key, 'infinite order: %s' % g)
        continue
      if g == INF and o != int(o):
        ctx.count('excluded fractional orders')
        continue
      want = o / (2 * s * s) if q == 1 else ref.renyi_gauss_mix(s, [1 - q, q], [0, 1], [1], [0], o)
      if o == int(o) or q == 1:
        ctx.check(same(g, want, 1e-6, 1e-9), key, 'order %s: %s, exact %s' % (o, g, want))
      else:
        ctx.check(g >= want * (1 - 1e-6) - 1e-12, key, 'order %s: %s, exact %s' % (o, g, want))
      if q < 1:
        other = ref.renyi_gauss_mix(s, [1], [0], [1 - q, q], [0, 1], o)
        ctx.check(g >= other * (1 - 1e-6) - 1e-9, key, 'order %s: %s, adding costs %s' % (o, g, other))
    elif k == 'WOR':
      q, s = d[2] / d[1], dp.eff_sigma(d[3])
      if q == 0:
        ctx.check(g == 0, key, 'empty sample costs %s' % g)
        continue
      if q == 1:
        ctx.check(same(g, o / (2 * s * s)), key, 'full sample: %s, exact %s' % (g, o / (2 * s * s)))
        continue
      if o == INF:
        ctx.check(g == INF, key, 'infinite order: %s' % g)
        continue
      low = max(ref.renyi_gauss_mix(s, [1 - q, q], [0, 1], [1], [0], o),
                ref.renyi_gauss_mix(s, [1], [0], [1 - q, q], [0, 1], o),
                ref.renyi_gauss_mix(s, [1 - q, q], [0, 0.5], [1 - q, q], [0, -0.5], o))
      ctx.check(g >= low * (1 - 1e-6) - 1e-9, key, 'order %s: %s, but a pair of inputs has %s' % (o, g, low))
    elif k == 'T':
      want = o * dp.tree_depth(d[2]) / (2 * d[1]**2)
      ctx.check(same(g, want), key, 'order %s: %s, exact %s' % (o, g, want))
    elif k == 'RP':
      A, B = dp.repeat_select_pair(d, rel)
      low = max(renyi(A, B, o), renyi(B, A, o))
      ctx.check(g >= low * (1 - 1e-6) - 1e-9, key, 'order %s: %s, but a pair of inputs has %s' % (o, g, low))
  ctx.check(all(g >= 0 for g in got), key, 'negative loss %s' % got)
  ctx.trace({'event': d, 'relation': rel, 'orders': len(orders)})
  ctx.state((rel, dp.tup(d)))


def renyi(P, Q, a):
  """Drops rounding-level atoms, which would dominate at high orders."""
  keep = [(p, q) for p, q in zip(P, Q) if p > 1e-8 and q > 1e-8]
  if a == INF:
    return max(math.log(p / q) for p, q in keep)
  s = [a * math.log(p) + (1 - a) * math.log(q) for p, q in keep]
  m = max(s)
  return (m + math.log(math.fsum(math.exp(v - m) for v in s))) / (a - 1)
