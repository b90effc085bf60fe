"""PLD accounting never under-reports the true privacy loss, and is tight."""
import itertools
import math

from mc import dp

PROPERTY = 'A06'
LEVEL = 'model_checking'
RULE = '''all multisets of mechanisms up to the size bound plus long runs of one mechanism, per neighbouring relation and
discretization interval, composed in two groupings and compared with a two-sided bracket of the exact joint loss'''
ASSUMPTIONS = ['exact losses bracketed on a loss grid five times finer than the accountant\'s']

EPS = [0.0, 0.07, 0.2, 0.5, 1.0, 2.0, 4.0, 7.0, 12.0]
DELTAS = [1e-10, 1e-7, 1e-5, 1e-3, 1e-2, 0.05, 0.2, 0.5, 0.9]
HS = [0.02, 0.1, 0.35]

MENU = {
    'AR': [['G', 1.0], ['G', 4.0], ['L', 0.7], ['L', 3.0], ['PS', 0.1, ['G', 0.7]], ['PS', 0.5, ['G', 2.0]],
           ['PS', 0.3, ['L', 1.5]], ['PS', 0.02, ['L', 0.5]], ['M', 1.0, [0.0, 1.0], [0.4, 0.6]],
           ['M', 1.5, [1.0, 2.0, 0.5], [0.3, 0.2, 0.5]], ['PS', 1.0, ['L', 2.0]]],
    'RO': [['G', 0.8], ['L', 1.2], ['RR', 0.5, 2], ['RR', 0.2, 4], ['RR', 0.9, 3], ['RR', 0.02, 2],
           ['M', 2.0, [1.0, 3.0], [0.9, 0.1]], ['RR', 0.4, 10], ['G', 3.0]],
    'RS': [['G', 2.0], ['L', 2.0], ['RR', 0.4, 3], ['RR', 0.1, 2], ['RR', 0.7, 6], ['PS', 0.3, ['G', 1.0]],
           ['PS', 0.2, ['L', 0.8]], ['RR', 0.95, 2]],
}
RUNS = [4, 10, 40]


def cases(tier):
  for rel, menu in MENU.items():
    for k in range(1, 4):
      for ms in itertools.combinations_with_replacement(range(len(menu)), k):
        hs = HS
        if k == 3 and tier == 'quick':
          hs = [HS[1 + sum(ms) % 2]]
        yield {'rel': rel, 'ms': list(ms), 'hs': hs}
    for i in range(len(menu)):
      for n in RUNS if tier == 'quick' else RUNS + [2, 3, 7, 100, 400]:
        yield {'rel': rel, 'ms': [i] * n, 'hs': HS[1:] if n > 10 else HS}


def pure(d, rel):
  """Largest loss of a mechanism."""
  if d[0] == 'L':
    return 1 / d[1]
  if d[0] == 'PS' and d[2][0] == 'L':
    return math.log1p(d[1] * math.expm1(1 / d[2][1]))
  if d[0] == 'RR':
    p, k = d[1], d[2]
    return math.log(1 + k * (1 - p) / p) if rel == 'RO' else max(math.log(k - (k - 1) * p), -math.log(p))
  return math.inf


def run(case, ctx):
  rel = case['rel']
  ms = [MENU[rel][i] for i in case['ms']]
  n = len(ms)
  for h in case['hs']:
    grids = dp.joint_grids(ms, rel, h / 5)
    cnt = {}
    for d in ms:
      cnt[dp.tup(d)] = cnt.get(dp.tup(d), 0) + 1
    a1 = dp.accountant('PLD', rel, h=h)
    for t, c in cnt.items():
      a1.compose(dp.ev(t), c)
    a2 = dp.accountant('PLD', rel, h=h).compose(dp.ev(['C', ms[::-1]]))
    for form, acc in (('counted', a1), ('composed', a2)):
      key = 'PLD %s h=%g %s %s' % (rel, h, sorted(cnt.items(), key=repr), form)
      for e in EPS:
        got = float(acc.get_delta(e))
        ctx.step()
        lo = dp.delta_bounds(grids, e)[0]
        hi = dp.delta_bounds(grids, e - n * h - 1e-9)[1]
        ctx.check(got >= lo * (1 - 1e-9) - 1e-11, key, 'delta(%g) = %g, true value at least %g' % (e, got, lo))
        ctx.check(got <= hi * (1 + 1e-9) + 1e-9 + 1e-10 * n, key,
                  'delta(%g) = %g, allowed by the discretization: %g' % (e, got, hi))
      for d in DELTAS:
        got = float(acc.get_epsilon(d))
        ctx.step()
        if math.isfinite(got):
          lo = dp.delta_bounds(grids, got)[0]
          ctx.check(got >= 0 and lo <= d * (1 + 1e-9) + 1e-11, key,
                    'epsilon(%g) = %g, true delta there at least %g' % (d, got, lo))
        e = min(got, 200.0) - n * h - 1e-6
        if e >= 0:
          hi = dp.delta_bounds(grids, e)[1]
          ctx.check(hi >= d * (1 - 1e-6) - 1e-9 - 1e-10 * n, key,
                    'epsilon(%g) = %g although delta is only %g at %g' % (d, got, hi, e))
      top = sum(pure(d, rel) for d in ms)
      if top < math.inf:  # every mechanism is pure, so the loss is bounded
        top += n * h + 1e-9
        got = float(acc.get_delta(top))
        ctx.check(got <= 2e-15 * (n + 2), key, 'delta(%g) = %g although no loss is that large' % (top, got))
        for d in (1e-9, 1e-11, 1e-12):
          got = float(acc.get_epsilon(d))
          ctx.check(got <= top, key, 'epsilon(%g) = %g although no loss exceeds %g' % (d, got, top))
      ctx.trace({'relation': rel, 'interval': h, 'mechanisms': ms} if n < 4 else None)
    ctx.state((rel, h, tuple(case['ms'])))
