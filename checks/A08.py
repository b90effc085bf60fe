"""An accountant's ledger lists exactly what it has accounted."""
import itertools
import math

import numpy as np

from dp_accounting import dp_event as D
from mc import dp

PROPERTY = 'A08'
LEVEL = 'model_checking'
RULE = '''all histories up to the depth bound of compose calls (counts, nested and repeated events, no-ops, refused and
invalid calls) interleaved with ledger reads; every ledger compared with the model sequence, kept and compared again,
and replayed on a fresh accountant'''
ASSUMPTIONS = ['replayed PLD losses may differ by one discretization interval per Gaussian']

H = 0.1
ORDERS = [1.5, 3.0, 8.0]
EPS = [0.0, 0.5, 2.0]
G, L, G2 = ['G', 2.0], ['L', 3.0], ['G', 4.0]
ALPHA = {
    ('RDP', 'AR'): [(G, 1), (G, 2), (L, 1), (['C', [G, L]], 1), (['S', L, 3], 1), ('NOOP', 2), ('UNS', 1),
                    (['C', [G, 'UNK']], 1), (['RP', G, 2.0, 1], 2), (G, 0), (['C', [L, 'NOOP', L]], 3),
                    (['S', ['C', [G]], 2], 2), (['C', []], 1)],
    ('RDP', 'RO'): [(G, 1), (['RR', 0.5, 2], 2), (['WOR', 10, 2, G], 1), (['PS', 0.1, G], 1), (['S', G, 2], 3),
                    (['C', [['RR', 0.5, 2], 'NP']], 1)],
    ('RDP', 'RS'): [(G, 2), (['RR', 0.5, 2], 1), (['T', 3.0, [4]], 2), (['WOR', 10, 2, G], 1), (['PS', 0.1, G], 1)],
    ('PLD', 'AR'): [(G, 1), (G, 2), (L, 1), (['C', [G, L]], 1), (['S', L, 3], 1), ('NOOP', 2), ('UNS', 1),
                    (['C', [G, 'UNK']], 1), (['PS', 0.3, L], 2), (G, -2), (['C', [L, 'NOOP', G2]], 3),
                    (['S', ['C', [G]], 2], 2), (['RP', G, 2.0, 1], 1)],
    ('PLD', 'RO'): [(G2, 1), (['RR', 0.5, 2], 2), (['C', [['RR', 0.5, 2], L]], 2), (['PS', 0.1, G], 1), (L, 1), ('NP', 1)],
    ('PLD', 'RS'): [(G2, 2), (['RR', 0.5, 2], 1), (['C', [['RR', 0.7, 3], 'UNS']], 2), (['PS', 0.1, L], 1), (L, 1)],
}


def refused(kind, rel, d, c):
  from checks import A02
  return c < 1 or not A02.model(kind, rel, d)


def cases(tier):
  for (kind, rel), al in ALPHA.items():
    depth = (3 if len(al) > 10 else 4) + (tier == 'thorough')
    for i in range(len(al)):
      for j in range(len(al)):
        for reads in (0, 1):
          yield {'kind': kind, 'rel': rel, 'first': [i, j], 'depth': depth, 'reads': reads}


def observe(kind, acc):
  v = [float(acc.get_delta(e)) for e in EPS] + [float(acc.get_epsilon(1e-3))]
  return v


def run(case, ctx):
  kind, rel, depth = case['kind'], case['rel'], case['depth']
  al = ALPHA[(kind, rel)]
  for rest in itertools.product(range(len(al)), repeat=depth - 2):
    hist = case['first'] + list(rest)
    key = '%s %s reads=%d %s' % (kind, rel, case['reads'], [al[i] for i in hist])
    acc = dp.accountant(kind, rel, ORDERS, H)
    want, kept = [], []
    for n, i in enumerate(hist):
      d, c = al[i]
      e = dp.ev(d)
      try:
        acc.compose(e, c)
        ok = True
      except Exception:
        ok = False
      ctx.step()
      ctx.check(ok != refused(kind, rel, d, c), key, 'call %d: accepted=%s' % (n, ok))
      if ok:
        want += dp.expand(e, c)
      if case['reads'] or n == len(hist) - 1:
        l = acc.ledger
        ctx.check(isinstance(l, D.DpEvent), key, 'ledger is %r' % (l,))
        ctx.check(dp.expand(l) == dp.merge(want), key, 'ledger %s, composed %s' % (l, want))
        ctx.check(acc.ledger == l, key, 'ledger changed between two reads')
        kept.append((l, repr(l), dp.merge(want)))
    for l, text, w in kept:
      ctx.check(repr(l) == text and dp.expand(l) == w, key, 'an earlier ledger changed to %s' % (l,))
    obs = observe(kind, acc)
    fresh = dp.accountant(kind, rel, ORDERS, H)
    fresh.compose(kept[-1][0])
    ctx.step()
    if kind == 'RDP':
      same = np.allclose(fresh.rdp, acc.rdp, rtol=1e-9, atol=1e-13) and np.allclose(
          observe(kind, fresh), obs, rtol=1e-6, atol=1e-10)
    else:
      ng = sum(c for e, c in want if isinstance(e, D.GaussianDpEvent))
      s = H * ng if ng > 1 else 0.0
      same = all(fresh.get_delta(e + s) <= acc.get_delta(e) * (1 + 1e-7) + 1e-9 and
                 acc.get_delta(e + s) <= fresh.get_delta(e) * (1 + 1e-7) + 1e-9 for e in EPS)
    ctx.check(same, key, 'replaying the ledger costs %s, accounted %s' % (observe(kind, fresh), obs))
    ctx.trace()
    ctx.state((kind, rel, tuple(hist)))
  ctx.trace({'first': [al[i] for i in case['first']], 'depth': depth})
