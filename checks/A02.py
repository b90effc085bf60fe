"""An accountant refuses what it cannot account for, whole and in advance."""
import numpy as np

from dp_accounting import privacy_accountant as PA
from mc import dp

PROPERTY = 'A02'
LEVEL = 'model_checking'
RULE = '''all event trees up to the depth bound over supported, unsupported and unknown leaves under every container,
for every accountant, neighbouring relation, prefix history and count, each asked, composed and observed'''
ASSUMPTIONS = ['support table taken from the accountants\' documentation and error messages']

H = 0.2
ORDERS = [1.5, 3.0]
G, L, RR, M = ['G', 1.3], ['L', 2.0], ['RR', 0.5, 3], ['M', 1.5, [0.0, 1.0], [0.5, 0.5]]
LEAVES = ['NOOP', 'NP', 'UNS', 'UNK', G, L, RR, M, ['T', 2.0, [3]], ['C', []], ['RR', 1.0, 2],
          ['WR', 10, 2, G]]


def unary(x, small=False):
  out = [['S', x, 2], ['PS', 0.3, x], ['RP', x, 2.0, 1], ['WOR', 10, 2, x]]
  if not small:
    out += [['S', x, 1], ['C', [x]], ['RP', x, 2.0, 'inf'], ['WR', 10, 2, x]]
  return out


def gaussian_only(d):
  if isinstance(d, str):
    return False
  if d[0] == 'G':
    return True
  if d[0] == 'C':
    return all(gaussian_only(x) for x in d[1])
  return d[0] == 'S' and gaussian_only(d[1])


def model(kind, rel, d):
  """Does this accountant support this event? (reference table)"""
  if isinstance(d, str):
    return d in ('NOOP', 'NP')
  k = d[0]
  if k in ('G', 'L'):
    return True
  if k == 'M':
    return kind == 'PLD'
  if k == 'RR':
    return rel != 'AR'
  if k == 'C':
    return all(model(kind, rel, x) for x in d[1])
  if k == 'S':
    return model(kind, rel, d[1])
  if k == 'PS':
    if rel == 'RO':
      return False
    return d[2][0] in ('G', 'L') if kind == 'PLD' else gaussian_only(d[2])
  if kind == 'PLD':
    return False
  if k == 'WOR':
    return rel == 'RO' and gaussian_only(d[3])
  if k == 'T':
    return rel == 'RS'
  if k == 'RP':
    return model(kind, rel, d[1])
  return False


def level1():
  out = []
  for x in LEAVES:
    out += unary(x)
  for x in LEAVES:
    for y in LEAVES:
      out.append(['C', [x, y]])
  return out


def cases(tier):
  n1 = len(level1())
  for kind in ('RDP', 'PLD'):
    for rel in ('AR', 'RO', 'RS'):
      for i in range(n1):
        yield {'kind': kind, 'rel': rel, 'i': i, 'deep': tier == 'thorough'}
      yield {'kind': kind, 'rel': rel, 'bad': 1}


def snap(kind, acc):
  v = [float(acc.get_epsilon(1e-2)), float(acc.get_delta(0.5))]
  if kind == 'RDP':
    v += [float(x) for x in acc.rdp]
  return v, dp.expand(acc.ledger)


def one(kind, rel, d, prefix, count, ctx):
  key = '%s %s %s after %s count=%d' % (kind, rel, d, prefix, count)
  acc = dp.accountant(kind, rel, ORDERS, H)
  for p in prefix:
    acc.compose(dp.ev(p))
  e = dp.ev(d)
  before = snap(kind, acc)
  ans = acc.supports(e)
  again = acc.supports(e)
  ctx.step(2)
  want = model(kind, rel, d)
  ctx.check(ans is True or ans is False, key, 'supports() returned %r' % (ans,))
  ctx.check(ans == again == want, key, 'supports() says %s, then %s; expected %s' % (ans, again, want))
  after = snap(kind, acc)
  ctx.check(before == after, key, 'asking changed the accountant: %s -> %s' % (before, after))
  err = None
  try:
    acc.compose(e, count)
  except Exception as x:
    err = x
  ctx.step()
  after = snap(kind, acc)
  if ans:
    ctx.check(err is None, key, 'supported event cannot be composed: %r' % err)
    if err is None:
      wl = dp.merge(before[1] + dp.expand(e, count))
      ctx.check(after[1] == wl, key, 'ledger %s instead of %s' % (after[1], wl))
      ctx.check(all(y >= x - 1e-9 for x, y in zip(before[0], after[0])), key,
                'loss decreased: %s -> %s' % (before[0], after[0]))
  else:
    ctx.check(isinstance(err, PA.UnsupportedEventError), key,
              'unsupported event gave %r instead of a refusal' % err)
    ctx.check(before == after, key, 'refused event changed the accountant: %s -> %s' % (before, after))
  ctx.trace()
  ctx.state((kind, rel, dp.tup(d), tuple(map(str, prefix)), count))


def run_bad(kind, rel, ctx):
  """Calls that are not compositions at all."""
  for prefix in ([], [G], [G, L]):
    for what, args in [('str', ('x',)), ('none', (None,)), ('tuple', (dp.ev(G).to_named_tuple(),)),
                       ('type', (type(dp.ev(G)),)), ('count0', (dp.ev(G), 0)), ('countneg', (dp.ev(G), -1)),
                       ('countfloat', (dp.ev(G), 1.5)), ('countfrac', (dp.ev(['C', [G, L]]), 0)),
                       ('countstr', (dp.ev(L), 'a')), ('list', ([dp.ev(G)],))]:
      acc = dp.accountant(kind, rel, ORDERS, H)
      for p in prefix:
        acc.compose(dp.ev(p))
      before = snap(kind, acc)
      err = None
      try:
        acc.compose(*args)
      except Exception as x:
        err = x
      ctx.step()
      key = '%s %s bad-call %s after %s' % (kind, rel, what, prefix)
      ctx.check(err is not None, key, 'accepted')
      after = snap(kind, acc)
      ctx.check(before == after, key, 'rejected call changed the accountant %s -> %s' % (before, after))
      ctx.trace()
      ctx.state((kind, rel, what, len(prefix)))


def run(case, ctx):
  kind, rel = case['kind'], case['rel']
  if 'bad' in case:
    run_bad(kind, rel, ctx)
    return
  x = level1()[case['i']]
  if case['i'] < len(LEAVES):
    d = LEAVES[case['i']]
    for prefix in ([], [G], ['NP']):
      one(kind, rel, d, prefix, 1, ctx)
      one(kind, rel, d, prefix, 3, ctx)
  for prefix in ([], [G], [L, 'NOOP', G], ['NP']):
    one(kind, rel, x, prefix, 1, ctx)
    one(kind, rel, x, prefix, 3, ctx)
  for u in unary(x, not case['deep']):
    one(kind, rel, u, [G], 1, ctx)
    if case['deep']:
      for u2 in unary(u, True):
        one(kind, rel, u2, [G], 1, ctx)
        one(kind, rel, ['C', [L, u2, G]], [G], 1, ctx)
  for y in LEAVES:
    one(kind, rel, ['C', [y, x]], [G], 1, ctx)
    one(kind, rel, ['C', [x, y]], [G], 2, ctx)
    if case['deep']:
      for u in unary(['C', [y, x]], False):
        one(kind, rel, u, [G], 1, ctx)
  ctx.trace({'accountant': kind, 'relation': rel, 'event': x})
