"""Loss distributions obey the algebra of composition."""
import itertools
import math

import numpy as np

from dp_accounting.pld import privacy_loss_distribution as PL
from mc import pl

PROPERTY = 'L02'
LEVEL = 'model_checking'
RULE = '''every multiset of up to 4 loss distributions of a menu, composed in every order and with every bracketing; all
repetition ladders; every mismatched and matched pair for the composability rules; operands observed before and after'''
ASSUMPTIONS = ['two loss distributions are the same when their deltas agree up to 1e-10 on an epsilon grid']
H = 0.1
EPS = [-8.0, -3.0, -1.1, -0.35, 0.0, 0.15, 0.6, 1.0, 2.05, 3.3, 6.0, 12.0, 30.0]
TOL = 1e-10



def flip(x):
  """The same mechanism with the two neighbouring inputs exchanged."""
  return PL.PrivacyLossDistribution(x._pmf_add, x._pmf_remove)  # pylint: disable=protected-access


_pair = lambda P, Q, **k: pl.from_pair(P, Q, H, **k)
MENU = {
    True: [
        ('identity', lambda: PL.identity(H)),
        ('randomized response', lambda: PL.from_randomized_response(0.4, 4, value_discretization_interval=H)),
        ('asymmetric pair', lambda: _pair((.7, .2, .1), (.2, .3, .5))),
        ('partly infinite', lambda: _pair((.5, .3, .2), (.0, .6, .4))),
        ('flipped pair', lambda: flip(_pair((.7, .2, .1), (.2, .3, .5)))),
        ('gaussian', lambda: PL.from_gaussian_mechanism(1.0, value_discretization_interval=H)),
        ('sampled gaussian', lambda: PL.from_gaussian_mechanism(0.6, value_discretization_interval=H, sampling_prob=.2)),
        ('dense randomized response', lambda: pl.dense(PL.from_randomized_response(0.3, 3, value_discretization_interval=H))),
        ('disjoint', lambda: _pair((1., 0.), (0., 1.))),
        ('dense asymmetric', lambda: pl.dense(_pair((.1, .9), (.4, .6)))),
        ('sparse far apart', lambda: PL.PrivacyLossDistribution.create_from_rounded_probability({-40: .05, 35: .85, 300: .1}, 0.0, H)),
    ],
    False: [
        ('optimistic pair', lambda: _pair((.7, .2, .1), (.2, .3, .5), pess=False)),
        ('optimistic randomized response', lambda: PL.from_randomized_response(0.4, 4, False, H)),
        ('optimistic gaussian', lambda: PL.from_gaussian_mechanism(1.0, pessimistic_estimate=False, value_discretization_interval=H)),
        ('optimistic dense', lambda: pl.dense(_pair((.1, .9), (.4, .6), pess=False))),
        ('optimistic partly infinite', lambda: _pair((.5, .3, .2), (.0, .6, .4), pess=False)),
    ]}


def cases(tier):
  t = tier == 'thorough'
  for pess, menu in MENU.items():
    for k in (2, 3, 4) if not t else (2, 3, 4, 5):
      top = len(menu) if k <= 4 else min(6, len(menu))
      for ms in itertools.combinations_with_replacement(range(top), k):
        yield {'k': 'tree', 'pess': pess, 'ms': list(ms)}
    for i in range(len(menu)):
      yield {'k': 'rep', 'pess': pess, 'i': i, 'thorough': t}
  yield {'k': 'rules'}


def vec(x):
  return np.array([float(x.get_delta_for_epsilon(e)) for e in EPS])


def snapshot(x):
  return (vec(x).tobytes(), tuple(float(x.get_epsilon_for_delta(d)) for d in (0.0, 1e-6, 0.01, 0.3)))


def bracketings(seq):
  if len(seq) == 1:
    yield seq[0]
    return
  for i in range(1, len(seq)):
    for a in bracketings(seq[:i]):
      for b in bracketings(seq[i:]):
        yield (a, b)


def build(tree, leaves, tau, ctx):
  if not isinstance(tree, tuple):
    return leaves[tree]
  a, b = build(tree[0], leaves, tau, ctx), build(tree[1], leaves, tau, ctx)
  ctx.step()
  return a.compose(b) if tau is None else a.compose(b, tau)


def run(case, ctx):
  if case['k'] == 'rules':
    return run_rules(ctx)
  menu = MENU[case['pess']]
  if case['k'] == 'rep':
    return run_rep(case, ctx, menu)
  ms = case['ms']
  names = [menu[i][0] for i in ms]
  leaves = {i: menu[i][1]() for i in set(ms)}
  before = {i: snapshot(x) for i, x in leaves.items()}
  want = None
  for tau in (0, None) if len(ms) < 4 else (0,):
    for perm in sorted(set(itertools.permutations(ms))):
      for tree in bracketings(perm):
        got = vec(build(tree, leaves, tau, ctx))
        if want is None:
          want = got
        key = 'compose %s in order %s tau=%s' % (names, tree, tau)
        ctx.check(np.all(np.abs(got - want) <= TOL), key, 'deltas %s differ from those of another order %s' % (got, want))
        ctx.trace()
        ctx.state((case['pess'], tree))
  # the composed query answers like the composition
  if len(ms) == 2:
    for a, b in (ms, ms[::-1]):
      for x, y in ((leaves[a], leaves[b]), (flip(leaves[a]), leaves[b]), (leaves[a], flip(leaves[b]))):
        both = x.compose(y, 0)
        for e in EPS:
          ctx.step()
          u, v = float(both.get_delta_for_epsilon(e)), float(x.get_delta_for_epsilon_for_composed_pld(y, e))
          ctx.check(abs(u - v) <= 1e-9, 'query of %s with %s eps=%g' % (menu[a][0], menu[b][0], e), 'delta %r of the pair, %r of the composition' % (v, u))
  # the identity changes nothing
  if len(ms) == 2 and case['pess']:
    for i in ms:
      for x in (leaves[i].compose(PL.identity(H)), PL.identity(H).compose(leaves[i])):
        ctx.check(np.all(np.abs(vec(x) - vec(leaves[i])) <= TOL), 'identity with %s' % menu[i][0], 'changed')
  for i in leaves:
    ctx.check(snapshot(leaves[i]) == before[i], 'operand %s of %s' % (menu[i][0], names), 'was modified by composing')
  ctx.trace({'multiset': names})


def run_rep(case, ctx, menu):
  name, mk = menu[case['i']]
  x = mk()
  before = snapshot(x)
  top = 14 if not case['thorough'] else 40
  for tau in (0, None):
    slack = TOL + (0 if tau == 0 else 1e-13)
    self_n = lambda y, n: y.self_compose(n) if tau is None else y.self_compose(n, tau)
    fold, powers = x, {}
    for n in range(1, top + 1):
      if n > 1:
        fold = fold.compose(x) if tau is None else fold.compose(x, tau)
      powers[n] = vec(fold)
      got = vec(self_n(x, n))
      ctx.step(2)
      ctx.trace()
      ctx.check(np.all(np.abs(got - powers[n]) <= slack), '%s times %d tau=%s' % (name, n, tau),
                'repeated composition gives %s, step by step %s' % (got, powers[n]))
      ctx.state((name, tau, n))
    for n in range(1, 8):
      for m in range(1, top // n + 1):
        got = vec(self_n(self_n(x, n), m))
        ctx.step(2)
        ctx.check(np.all(np.abs(got - powers[n * m]) <= slack), '(%s times %d) times %d tau=%s' % (name, n, m, tau),
                  'gives %s, expected %s' % (got, powers[n * m]))
    for j, (other, mk2) in enumerate(menu):
      y = mk2()
      xy = x.compose(y, 0)
      for n in (2, 3, 6):
        a = vec(self_n(xy, n))
        b = vec(self_n(x, n).compose(self_n(y, n), 0))
        ctx.step(4)
        ctx.check(np.all(np.abs(a - b) <= 10 * slack), '(%s with %s) times %d tau=%s' % (name, other, n, tau), 'gives %s, expected %s' % (a, b))
  ctx.check(snapshot(x) == before, 'operand %s of repetition' % name, 'was modified')
  for bad in (0, -1, -5):
    try:
      x.self_compose(bad)
      ctx.fail('%s times %d' % (name, bad), 'accepted')
    except ValueError:
      pass


def run_rules(ctx):
  forms = []
  for h in (0.1, 0.05, 0.1 + 1e-12, 1.0):
    for pess in (True, False):
      for sym in (True, False):
        for den in (False, True):
          x = pl.from_pair((.7, .2, .1), (.2, .3, .5), h, pess, sym)
          forms.append((h, pess, sym, den, pl.dense(x) if den else x))
  for a, b in itertools.product(forms, forms):
    same = a[:2] == b[:2]
    key = 'composing %s with %s' % (a[:4], b[:4])
    for what, f in (('compose', lambda: a[4].compose(b[4])), ('composed query', lambda: a[4].get_delta_for_epsilon_for_composed_pld(b[4], 0.5)),
                    ('validate', lambda: a[4].validate_composable(b[4]))):
      if what == 'validate' and a[3] != b[3]:
        continue  # representations differ: the answer is not specified
      ctx.step()
      try:
        f()
        ok = True
      except ValueError:
        ok = False
      ctx.check(ok == same, key, '%s: %s' % (what, 'accepted' if ok else 'rejected'))
    ctx.state(key)
    ctx.trace()
