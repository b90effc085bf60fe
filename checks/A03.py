"""A failed composition never erases loss that was already accounted.

Fault injection: one run of compose() is stopped by an error at every single
line it executes inside the library, under every call stack, for every history and event; besides, all
events with bad parameters at every place of a composition.
"""
import os
import sys

import numpy as np

from mc import dp

PROPERTY = 'A03'
LEVEL = 'model_checking'
RULE = '''every prefix history x event x every library line executed by compose(), under
every call stack x {Exception, KeyboardInterrupt}, plus
every bad-parameter event at every position of a composition; afterwards loss, ledger, retry and further composition'''
ASSUMPTIONS = ['a fault strikes between two source lines of the library (not inside a numpy call)']

H = 0.5
ORDERS = [2.0, 3.0, 4.0]
G, L, RR = ['G', 1.3], ['L', 2.0], ['RR', 0.5, 3]
M = ['M', 2.0, [0.0, 1.0], [0.5, 0.5]]
RP = ['RP', ['G', 3.0], 3.0, 1]

PREFIX = {
    ('RDP', 'AR'): [[], [G], [L, RP], ['NP'], [['C', [G, G]], L, G]],
    ('RDP', 'RO'): [[], [G], [RR, ['WOR', 10, 2, G]]],
    ('RDP', 'RS'): [[], [RR], [['T', 2.0, [3]], G]],
    ('PLD', 'AR'): [[], [G], [L, G], ['NP']],
    ('PLD', 'RO'): [[], [RR], [G, RR]],
    ('PLD', 'RS'): [[], [RR, L]],
}
EVENTS = {
    ('RDP', 'AR'): [G, L, ['PS', 0.2, ['G', 2.0]], RP, ['RP', ['C', [G, L]], 2.0, 'inf'], ['RP', RP, 2.0, 0],
                    ['C', [G, RP, L]], ['S', ['C', [RP, 'NP']], 2], ['PS', 0.3, ['C', [G, ['S', G, 2]]]],
                    ['RP', 'NP', 2.0, 1], ['C', ['NP', G]], ['RP', ['RP', ['C', [L, L]], 2.0, 1], 2.0, 'inf']],
    ('RDP', 'RO'): [RR, ['WOR', 10, 2, G], ['RP', RR, 3.0, 1], ['C', [RR, ['RP', G, 3.0, 0.5]]]],
    ('RDP', 'RS'): [RR, ['T', 2.0, [3]], ['RP', ['T', 3.0, [2]], 2.0, 1], ['C', [['PS', 0.1, G], ['T', 2.0, 1]]]],
    ('PLD', 'AR'): [G, L, ['PS', 0.2, L], M, ['C', [G, ['PS', 0.2, ['G', 3.0]]]], ['S', ['C', [L, 'NP']], 2]],
    ('PLD', 'RO'): [RR, ['C', [G, RR]]],
    ('PLD', 'RS'): [['PS', 0.3, L], ['S', RR, 3]],
}
BAD = [['G', -1.0], ['L', -1.0], ['PS', 1.5, G], ['PS', -0.2, G], ['RR', 1.5, 3], ['RR', 0.5, 0], ['RR', -0.5, 2],
       ['T', -1.0, [3]], ['T', 2.0, []], ['T', 2.0, [-4]], ['RP', G, 0.5, 1], ['RP', G, float('nan'), 1],
       ['RP', G, 2.0, -1.0], ['RP', G, 2.0, float('nan')], ['M', 2.0, [0.0, 1.0], [0.5]], ['M', 2.0, [-1.0], [1.0]],
       ['M', -2.0, [1.0], [1.0]], ['WOR', 10, 20, G], ['WOR', 0, 0, G], ['RP', ['G', -1.0], 2.0, 1], ['G', 'x'],
       ['RP', ['RR', 7.0, 3], 2.0, 1], ['RP', ['L', -1.0], 2.0, 'inf'], ['L', float('nan')], ['RP', ['L', 'x'], 2.0, 1]]
WRAPS = [None, 'after', 'before', 'rp', 'rpc', 'self', 'deep']


class Fault(Exception):
  pass


class Interrupt(KeyboardInterrupt):
  pass


LIB = os.path.join('dp_accounting', 'dp_accounting') + os.sep


def stack(frame):
  """The call stack inside the library, recursion folded."""
  out = []
  while frame is not None and LIB in frame.f_code.co_filename:
    here = (frame.f_code.co_name, frame.f_lineno)
    if here not in out:
      out.append(here)
    frame = frame.f_back
  return (out[0],) + tuple(sorted(out[1:]))


class Injector:
  """Raises at the k-th executed line of the library."""

  def __init__(self, k, exc):
    self.k, self.exc, self.n = k, exc, 0
    self.sites = {}  # call stack inside the library -> positions

  def __call__(self, frame, event, arg):
    if LIB not in frame.f_code.co_filename:
      return None
    return self.local

  def local(self, frame, event, arg):
    if event == 'line':
      self.n += 1
      if self.k < 0:
        self.sites.setdefault(stack(frame), []).append(self.n)
      if self.n == self.k:
        raise self.exc()
    return self.local

  def run(self, f):
    old = sys.gettrace()
    sys.settrace(self)
    try:
      f()
      return None
    except (Fault, Interrupt, Exception) as e:
      return e
    finally:
      sys.settrace(old)


def build(kind, rel, prefix):
  acc = dp.accountant(kind, rel, ORDERS, H)
  for p in prefix:
    acc.compose(dp.ev(p))
  return acc


def loss(kind, acc):
  v = [float(acc.get_epsilon(d)) for d in (1e-6, 1e-2)]
  v += [float(acc.get_delta(e)) for e in (0.0, 0.7)]
  if kind == 'RDP':
    v += [float(x) for x in acc.rdp]
  return v


def geq(a, b):
  return all(x >= y - 1e-9 - 1e-9 * abs(y) if np.isfinite(y) else x >= y for x, y in zip(a, b))


def has_prefix(full, pre):
  full, pre = list(full), list(pre)
  for i, (e, c) in enumerate(pre):
    if i >= len(full) or full[i][0] != e:
      return False
    if full[i][1] != c and not (i == len(pre) - 1 and full[i][1] >= c):
      return False
  return True


def verify(kind, rel, prefix, e, acc, base, further, key, ctx, retry):
  """acc has just had a compose() call fail."""
  now = loss(kind, acc)
  ctx.check(geq(now, base), key, 'loss before the failed call %s, after it %s' % (base, now))
  ok = has_prefix(dp.expand(acc.ledger), dp.expand(build_ledger(prefix)))
  ctx.check(ok, key, 'ledger lost earlier mechanisms: %s' % (acc.ledger,))
  if retry is not None:
    acc.compose(e)
    ctx.check(geq(loss(kind, acc), retry), key, 'loss after a retry %s below the clean run %s' % (
        loss(kind, acc), retry))
  else:
    acc.compose(dp.ev(G))
    ctx.check(geq(loss(kind, acc), further), key,
              'loss after composing on %s below the clean run %s' % (loss(kind, acc), further))


def build_ledger(prefix):
  return dp.ev(['C', list(prefix)])


def cases(tier):
  for (kind, rel), prefixes in PREFIX.items():
    for i in range(len(prefixes)):
      for j in range(len(EVENTS[(kind, rel)])):
        for exc in (0, 1):
          yield {'kind': kind, 'rel': rel, 'p': i, 'e': j, 'exc': exc,
                 'cap': 3 if tier == 'quick' else 100}
      for b in range(len(BAD)):
        yield {'kind': kind, 'rel': rel, 'p': i, 'bad': b}


def wrap(d, w):
  return {None: d, 'after': ['C', [G, d]], 'before': ['C', [d, G]], 'rp': ['RP', d, 2.0, 1],
          'rpc': ['RP', ['C', [L, d]], 2.0, 'inf'], 'self': ['S', d, 3],
          'deep': ['C', [L, ['S', ['C', [G, ['RP', ['RP', d, 2.0, 1], 3.0, 0]]], 2]]]}[w]


def run(case, ctx):
  kind, rel = case['kind'], case['rel']
  prefix = PREFIX[(kind, rel)][case['p']]
  acc = build(kind, rel, prefix)
  base = loss(kind, acc)
  acc.compose(dp.ev(G))
  further = loss(kind, acc)
  if 'bad' in case:
    for w in WRAPS:
      d = wrap(BAD[case['bad']], w)
      key = '%s %s bad %s after %s' % (kind, rel, d, prefix)
      acc = build(kind, rel, prefix)
      try:
        acc.compose(dp.ev(d))
        ctx.count('accepted')
        continue
      except Exception:
        pass
      ctx.step()
      ctx.count('rejected')
      verify(kind, rel, prefix, None, acc, base, further, key, ctx, None)
      ctx.trace()
      ctx.state((kind, rel, case['p'], case['bad'], w))
    return
  d = EVENTS[(kind, rel)][case['e']]
  e = dp.ev(d)
  acc = build(kind, rel, prefix)
  inj = Injector(-1, Fault)
  inj.run(lambda: acc.compose(e))
  total = inj.n
  retry = loss(kind, acc)
  assert total > 0
  ctx.count('fault points', total)
  # A line reached again under the same call stack (a loop of a helper) is
  # struck on its first, middle and last visit; all visits if thorough.
  ks = sorted({k for v in inj.sites.values() for k in (
      v if len(v) <= case['cap'] else [v[0], v[len(v) // 2], v[-1]])})
  ctx.count('fault points struck', len(ks))
  exc = (Fault, Interrupt)[case['exc']]
  for k in ks:
    acc = build(kind, rel, prefix)
    err = Injector(k, exc).run(lambda: acc.compose(e))
    ctx.step()
    key = '%s %s fault(%s) line %d of %s after %s' % (kind, rel, exc.__name__, k, d, prefix)
    if err is None:
      ctx.count('absorbed')
      continue
    verify(kind, rel, prefix, e, acc, base, further, key, ctx, retry if k % 2 else None)
    ctx.trace()
    ctx.state((kind, rel, case['p'], case['e'], k))
  ctx.trace({'prefix': prefix, 'event': d, 'fault_points': total, 'fault': exc.__name__})
