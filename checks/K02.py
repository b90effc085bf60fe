"""Numeric inversion of a monotone function returns a valid, tight answer."""
import bisect
import itertools
import math
import signal

from dp_accounting.pld import common

PROPERTY = 'K02'
LEVEL = 'model_checking'
RULE = '''every monotone function with values from a menu on a few cells (steps with either side closed, piecewise linear),
increasing and decreasing, cells at small, fractional, negative and huge positions; each inverted for every target, over
every range, with and without every initial guess, tolerance, over reals and over integers'''
ASSUMPTIONS = ['bounds are finite, except an upper bound with an initial guess and an answer below it',
               'an integer search with an answer at the far end of the range may be one off (its tolerance is one)']

MENU = (-1.0, 0.0, 0.5, math.inf)
TARGETS = (-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 7.0)
CUTS = {'small': (1, 2, 5), 'frac': (0.3, 1.7, 4.0001), 'neg': (-3, -2, 1.5), 'huge': (3e9, 7e12, 7.000001e12), 'tiny': (1e-9, 2e-8, 3e-5)}
RANGES = {
    'small': [(0, 8), (0, 1), (1, 5), (2, 4), (2, 2), (-6, 40), (0.5, 4.5), (0, 1e4)],
    'frac': [(0, 8), (0, 0.5), (0.3, 4.0001), (1, 4), (0.31, 1.69)],
    'neg': [(-10, 10), (-3, -2), (-2.5, 0), (-4, 1)],
    'huge': [(0, 1e13), (1e9, 8e12), (0, 6.5e12), (-1e15, 1e15)],
    'tiny': [(0, 1), (0, 2e-8), (1e-9, 1e-4)],
}
TOLS = (1e-7, 1e-3, 0.5, 3.0, 1e-14)
GUESSES = (None, 1e-9, 0.5, 1, 3, 64, 2.5e12)
DRANGES = [(0, 8), (0, 1), (1, 5), (2, 4), (2, 2), (-6, 40), (3, 4), (0, 10**6), (1, 2), (4, 9)]
DCUTS = [(1, 2, 5), (2, 3, 4), (1, 7, 8), (-2, 0, 3), (1, 30, 5000)]
DGUESSES = (None, 1, 2, 3, 8, 100)


def funcs():
  return list(itertools.combinations_with_replacement(range(len(MENU)), 4))


def cases(tier):
  for name in CUTS:
    for kind in ('right', 'left', 'linear'):
      for inc in (True, False):
        yield {'k': 'cont', 'cuts': name, 'kind': kind, 'inc': inc}
  for i in range(len(DCUTS)):
    for inc in (True, False):
      yield {'k': 'disc', 'i': i, 'inc': inc}


def make(kind, cuts, vals):
  if kind == 'right':
    return lambda x: vals[bisect.bisect_right(cuts, x)]
  if kind == 'left':
    return lambda x: vals[bisect.bisect_left(cuts, x)]
  xs = [cuts[0] - (cuts[1] - cuts[0]) / 2] + list(cuts)

  def lin(x):
    if x <= xs[0]:
      return vals[0]
    if x >= xs[-1]:
      return vals[-1]
    i = bisect.bisect_right(xs, x)
    a, b = vals[i - 1], vals[i]
    if math.isinf(a) or math.isinf(b):
      return a if x == xs[i - 1] else max(a, b)
    t = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return min(max(a + t * (b - a), min(a, b)), max(a, b))
  return lin


class Hang(BaseException):
  pass


def invert(f, target, params, inc, budget=3000):
  n = [0]

  def g(x):
    n[0] += 1
    if n[0] > budget:
      raise Hang()
    return f(x)
  try:
    return common.inverse_monotone_function(g, target, params, increasing=inc), n[0]
  except Hang:
    return 'no answer after %d evaluations' % budget, n[0]


def extreme(f, target, lo, hi, inc):
  """Largest (increasing) or smallest (decreasing) x in [lo, hi] with f(x) <= target, to the last bit."""
  good, bad = (lo, hi) if inc else (hi, lo)
  if f(good) > target:
    return None
  if f(bad) <= target:
    return bad
  while True:
    m = (good + bad) / 2
    if m in (good, bad):
      return good
    if f(m) <= target:
      good = m
    else:
      bad = m


def run(case, ctx):
  inc = case['inc']
  if case['k'] == 'disc':
    return run_discrete(case, ctx)
  cuts = CUTS[case['cuts']]
  for ix in funcs():
    vals = tuple(MENU[i] for i in ix)
    vals = vals if inc else vals[::-1]
    f = make(case['kind'], cuts, vals)
    for target in TARGETS:
      for lo, hi in RANGES[case['cuts']]:
        want = extreme(f, target, lo, hi, inc)
        for tol in TOLS:
          for guess in GUESSES:
            for upper in (hi, math.inf):
              if upper == math.inf and (guess is None or (not inc and f(math.inf) > target) or (inc and f(math.inf) <= target)):
                continue
              w = want if upper == hi else extreme(f, target, lo, 1e18, inc)
              key = '%s %s %s inc=%s target=%g range=(%g, %g) guess=%s tol=%g' % (case['kind'], cuts, vals, inc, target, lo, upper, guess, tol)
              x, n = invert(f, target, common.BinarySearchParameters(lo, upper, initial_guess=guess, tolerance=tol), inc)
              ctx.step(n)
              ctx.trace()
              if w is None or x is None or isinstance(x, str):
                ctx.check(x is None and w is None, key, 'returned %r, answer %r' % (x, w))
                continue
              ctx.check(f(x) <= target, key, 'returned %r where the function is %r' % (x, f(x)))
              ctx.check(lo <= x <= upper, key, 'returned %r outside the range' % x)
              ctx.check(abs(x - w) <= tol + 4 * math.ulp(w), key, 'returned %r, %s is %r' % (x, 'largest' if inc else 'smallest', w))
    ctx.state((case['kind'], cuts, vals, inc))


def run_discrete(case, ctx):
  inc = case['inc']
  cuts = DCUTS[case['i']]
  for ix in funcs():
    vals = tuple(MENU[i] for i in ix)
    vals = vals if inc else vals[::-1]
    f = make('right', cuts, vals)

    def fi(x):
      assert x == math.floor(x), 'integer search evaluated at %r' % x
      return f(x)
    for target in TARGETS:
      for lo, hi in DRANGES:
        pts = sorted(set([lo, hi] + [c + d for c in cuts for d in (-1, 0, 1) if lo <= c + d <= hi]))
        good = [p for p in pts if f(p) <= target]
        want = None if not good else (max(good) if inc else min(good))
        for guess in DGUESSES:
          for upper in (hi, math.inf):
            if upper == math.inf and (guess is None or (not inc and f(math.inf) > target) or (inc and f(math.inf) <= target)):
              continue
            w = want
            if upper == math.inf:
              pts2 = sorted(set([lo, max(lo, 10**7)] + [c + d for c in cuts for d in (-1, 0, 1) if lo <= c + d]))
              g2 = [p for p in pts2 if f(p) <= target]
              w = None if not g2 else (max(g2) if inc else min(g2))
            key = 'discrete %s %s inc=%s target=%g range=(%g, %g) guess=%s' % (cuts, vals, inc, target, lo, upper, guess)
            x, n = invert(fi, target, common.BinarySearchParameters(lo, upper, initial_guess=guess, discrete=True), inc)
            ctx.step(n)
            ctx.trace()
            if w is None or x is None or isinstance(x, str):
              ctx.check(x is None and w is None, key, 'returned %r, answer %r' % (x, w))
              continue
            ctx.check(x == math.floor(x) and f(x) <= target, key, 'returned %r where the function is %r' % (x, f(x)))
            ctx.check(lo <= x <= upper, key, 'returned %r outside the range' % x)
            # The far end of the range is not evaluated: one off is allowed there.
            end = upper if inc else lo
            ctx.check(x == w or (w == end and abs(x - w) <= 1), key, 'returned %r, %s is %r' % (x, 'largest' if inc else 'smallest', w))
    ctx.state((cuts, vals, inc))
