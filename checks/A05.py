"""Renyi accounting never under-reports the true privacy loss."""
import itertools
import math

import numpy as np

from dp_accounting.rdp import rdp_privacy_accountant as R
from mc import dp
from mc import ref

PROPERTY = 'A05'
LEVEL = 'model_checking'
RULE = '''all multisets of mechanisms up to the size bound plus long runs of one mechanism, per neighbouring relation and
order set, compared with exact joint output laws; all pairs of distributions on a probability lattice for the
conversions'''
ASSUMPTIONS = ['exact losses bracketed on a fine loss grid (lower ends used)', 'repeat-and-select and sampling without '
               'replacement compared with concrete neighbouring inputs (a lower bound of the truth)']

ORDER_SETS = [[1.5, 2.0, 3.0, 6.0, 16.0, 64.0], [1.005, 1.5], [math.inf], [2.0], [1.2, math.inf], [32.0, 5.0], [8.5],
              [1.1, 1.01, 1.3], None]
GH = 0.02
EPS = [0.0, 0.05, 0.2, 0.5, 1.0, 2.0, 4.0, 7.0, 12.0]
DELTAS = [1e-8, 1e-5, 1e-3, 1e-2, 0.05, 0.2, 0.5, 0.9]

MENU = {
    'AR': [['G', 1.0], ['G', 4.0], ['L', 0.7], ['L', 3.0], ['PS', 0.1, ['G', 0.7]], ['PS', 0.5, ['G', 2.0]],
           ['PS', 0.02, ['C', [['G', 1.0], ['G', 0.5]]]], ['RP', ['G', 2.0], 3.0, 1],
           ['RP', ['G', 3.0], 5.0, 'inf'], ['RP', ['G', 2.5], 2.0, 0], ['RP', ['G', 1.5], 1.5, 2.5],
           ['PS', 1.0, ['G', 1.5]]],
    'RO': [['G', 0.8], ['L', 1.2], ['RR', 0.5, 2], ['RR', 0.2, 4], ['RR', 0.9, 3], ['RR', 0.02, 2],
           ['WOR', 10, 3, ['G', 1.0]], ['WOR', 4, 2, ['G', 0.6]], ['WOR', 50, 1, ['C', [['G', 0.7], ['G', 2]]]],
           ['RP', ['RR', 0.5, 2], 3.0, 1], ['RP', ['RR', 0.6, 3], 4.0, 'inf'], ['RP', ['RR', 0.8, 2], 2.5, 0],
           ['RP', ['C', [['RR', 0.7, 2], ['RR', 0.8, 2]]], 6.0, 0.5]],
    'RS': [['G', 2.0], ['L', 2.0], ['RR', 0.4, 3], ['RR', 0.1, 2], ['RR', 0.7, 6], ['T', 2.0, [3, 8]],
           ['T', 4.0, 13], ['T', 1.5, [1]], ['PS', 0.3, ['G', 1.0]], ['RP', ['RR', 0.5, 3], 3.0, 1],
           ['RP', ['RR', 0.3, 2], 2.0, 'inf']],
}
RUNS = [4, 10, 40]


def cases(tier):
  size = 4 if tier == 'thorough' else 3
  for rel, menu in MENU.items():
    for k in range(1, size + 1):
      for ms in itertools.combinations_with_replacement(range(len(menu)), k):
        yield {'rel': rel, 'ms': list(ms), 'osets': list(range(len(ORDER_SETS) - (k > 1)))}
    for i in range(len(menu)):
      for n in RUNS if tier == 'quick' else RUNS + [2, 3, 100, 400]:
        yield {'rel': rel, 'ms': [i] * n, 'osets': list(range(len(ORDER_SETS) - 1))}
  n = 6 if tier == 'quick' else 8
  lat = lattice(n, 3)
  for i in range(len(lat)):
    yield {'lattice': n, 'i': i}


def lattice(n, parts):
  if parts == 1:
    return [(n,)]
  return [(k,) + r for k in range(n + 1) for r in lattice(n - k, parts - 1)]


def run_lattice(case, ctx):
  """The conversions, fed with the exact Renyi losses of finite pairs."""
  n = case['lattice']
  lat = lattice(n, 3)
  P = [x / n for x in lat[case['i']]]
  orders = [1.05, 1.5, 2.0, 3.5, 10.0, 100.0, math.inf]
  for qi, ql in enumerate(lat):
    Q = [x / n for x in ql]
    rdp = [max(ref.renyi(P, Q, a), ref.renyi(Q, P, a)) for a in orders]
    rdp = [max(0.0, r) for r in rdp]
    for sub in subsets(len(orders)):
      o, r = [orders[i] for i in sub], [rdp[i] for i in sub]
      key = 'conversion P=%s Q=%s orders=%s' % (lat[case['i']], ql, o)
      for e in (0.0, 0.1, 0.5, 1.0, 1.7, 3.0):
        true = max(ref.hockey(P, Q, e), ref.hockey(Q, P, e))
        got = R.compute_delta(o, r, e)[0]
        ctx.step()
        ctx.check(got >= true - 1e-9, key, 'delta(%g) = %g but the true one is %g' % (e, got, true))
      for d in (1e-9, 1e-3, 0.1, 0.3, 0.6):
        got = R.compute_epsilon(o, r, d)[0]
        ctx.step()
        ok = got == math.inf or max(ref.hockey(P, Q, got), ref.hockey(Q, P, got)) <= d + 1e-9
        ctx.check(ok, key, 'epsilon(%g) = %g but delta there is larger' % (d, got))
    ctx.trace()
    ctx.state((lat[case['i']], ql))


def subsets(n):
  out = [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2)) + [tuple(range(n))]
  return out + [(n - 1, 0), (n - 2, 1)]


def run(case, ctx):
  if 'lattice' in case:
    return run_lattice(case, ctx)
  rel = case['rel']
  ms = [MENU[rel][i] for i in case['ms']]
  h = GH if len(ms) < 40 else 0.05
  leaves = [y for d in ms for y in dp.flat(d)]
  grids = dp.joint_grids(leaves, rel, h)
  lows = [dp.delta_bounds(grids, e)[0] for e in EPS]
  for o in case['osets']:
    acc = dp.accountant('RDP', rel, ORDER_SETS[o])
    cnt = {}
    for d in ms:
      cnt[dp.tup(d)] = cnt.get(dp.tup(d), 0) + 1
    for t, c in cnt.items():
      acc.compose(dp.ev(t), c)
    key = 'RDP %s orders=%s %s' % (rel, ORDER_SETS[o], sorted(cnt.items(), key=repr))
    for e, lo in zip(EPS, lows):
      got = float(acc.get_delta(e))
      ctx.step()
      ctx.check(got >= lo * (1 - 1e-9) - 1e-12, key, 'delta(%g) = %g, true value at least %g' % (e, got, lo))
    for d in DELTAS:
      got = float(acc.get_epsilon(d))
      ctx.step()
      if math.isinf(got) and got > 0:
        continue
      lo = dp.delta_bounds(grids, got)[0] if got < 300 else 0.0
      ctx.check(got >= 0 and lo <= d * (1 + 1e-9) + 1e-12, key,
                'epsilon(%g) = %g, true delta there at least %g' % (d, got, lo))
    ctx.trace({'orders': ORDER_SETS[o], 'mechanisms': ms} if len(ms) < 4 else None)
    ctx.state((rel, o, tuple(case['ms'])))
