"""A calibrated parameter meets the budget and is optimal within tolerance."""
import bisect
import itertools
import math

import attr

from dp_accounting import dp_event
from dp_accounting import mechanism_calibration as MC
from dp_accounting import privacy_accountant
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

PROPERTY = 'K01'
LEVEL = 'model_checking'
RULE = '''every monotone loss function given by values from a menu (below, exactly at and above the target, infinite) on a
few cells, stepwise (either side closed) and piecewise linear, increasing and decreasing, with cells at aligned and
unaligned positions; each calibrated with every bracket of a menu (explicit both ways round, lower end and guess, none),
tolerance and continuous or integer parameters through a recording accountant; plus real accountants and mechanisms'''
ASSUMPTIONS = ['the loss is monotone in the parameter', 'the loss function may refuse parameters outside an explicit bracket']

TARGET = 3.0
DELTA = 0.125
MENU = (0.0, 2.5, TARGET, TARGET + 1e-9, 8.0, math.inf)
CELLS = 5


@attr.define
class Event(dp_event.DpEvent):
  x: float


class Accountant(privacy_accountant.PrivacyAccountant):

  def __init__(self, f):
    super().__init__(privacy_accountant.NeighboringRelation.ADD_OR_REMOVE_ONE)
    self.f, self.x = f, None

  def _maybe_compose(self, event, count, do_compose):
    if do_compose:
      assert self.x is None and count == 1, 'accountant used for more than one parameter'
      self.x = event.x

  def get_epsilon(self, target_delta):
    assert target_delta == DELTA
    return self.f(self.x)


class OutOfBracket(Exception):
  pass


def sequences():
  return list(itertools.combinations_with_replacement(range(len(MENU)), CELLS))


# Interior cell boundaries: the loss changes at these places.
POSITIONS = {
    'whole': (2.0, 4.0, 5.0, 7.0),
    'odd': (0.9, math.pi, 3.2, 9.7),
    'tight': (1e-9, 3.0, 3.0 + 3e-7, 3.01),
    'far': (1.0, 40.0, 1000.1, 5e5),
}
BRACKETS = {
    'none': None,
    'guess': ('g', 0.0, 1.0), 'guess far': ('g', -3.0, 2.5), 'guess small': ('g', 0.0, 0.001), 'guess wide': ('g', 0.5, 6.0),
    'up': ('e', 0.0, 10.0), 'down': ('e', 10.0, 0.0), 'neg': ('e', -5.0, 12.5), 'far': ('e', 1e6, 0.0), 'half': ('e', 3.1, 4.6), 'reversed half': ('e', 8.0, 0.95),
}
TOLS = (None, 1e-13, 1e-3, 0.3, 2.0, 7.0)


def cases(tier):
  n = len(sequences())
  chunk = 12
  for pos in POSITIONS:
    for lo in range(0, n, chunk):
      for kind in ('right', 'left', 'linear'):
        yield {'k': 'cont', 'pos': pos, 'lo': lo, 'hi': min(n, lo + chunk), 'kind': kind}
  for pos in DPOS:
    for lo in range(0, n, chunk):
      yield {'k': 'disc', 'pos': pos, 'lo': lo, 'hi': min(n, lo + chunk)}
  yield {'k': 'never'}
  for i in range(len(REAL)):
    yield {'k': 'real', 'i': i}


def make(kind, cuts, vals, increasing):
  """Loss function of a real parameter: vals[i] between cuts[i-1] and cuts[i]."""
  vals = vals if increasing else vals[::-1]
  if kind == 'right':  # jump value belongs to the cell above
    return lambda x: vals[bisect.bisect_right(cuts, x)]
  if kind == 'left':
    return lambda x: vals[bisect.bisect_left(cuts, x)]
  xs = [cuts[0] - 1.0] + list(cuts) if len(cuts) == len(vals) - 1 else list(cuts)

  def lin(x):
    if x <= xs[0]:
      return vals[0]
    if x >= xs[-1]:
      return vals[-1]
    i = bisect.bisect_right(xs, x)
    a, b = vals[i - 1], vals[i]
    if math.isinf(a) or math.isinf(b):
      return a if x == xs[i - 1] else max(a, b)
    if a == b:
      return a
    t = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return min(max(a + t * (b - a), min(a, b)), max(a, b))
  return lin


def calibrate(f, bracket, tol, discrete, lo=None, hi=None):
  """Runs the real code; returns ('value', x) or ('error', type) and the parameters tried."""
  seen = []

  def event(x):
    if lo is not None and not lo <= x <= hi:
      raise OutOfBracket('parameter %r tried, bracket is [%r, %r]' % (x, lo, hi))
    if discrete and not isinstance(x, int):
      raise TypeError('parameter %r is not an int' % (x,))
    seen.append(x)
    return Event(x)

  br = None
  if bracket is not None:
    br = MC.LowerEndpointAndGuess(*bracket[1:]) if bracket[0] == 'g' else MC.ExplicitBracketInterval(*bracket[1:])
  try:
    x = MC.calibrate_dp_mechanism(lambda: Accountant(f), event, TARGET, DELTA, br, discrete, tol)
  except (MC.NoBracketIntervalFoundError, ValueError) as e:
    return 'error', e, seen
  return 'value', x, seen


def boundary(f, lo, hi):
  """The parameter in [lo, hi] where meeting the target changes, to 1e-12, given that the ends differ."""
  a, b = lo, hi
  at = f(a) <= TARGET
  while True:
    m = (a + b) / 2
    if m in (a, b):
      break
    if (f(m) <= TARGET) == at:
      a = m
    else:
      b = m
  return a, b


def reach(bracket):
  """Probes of the bracket search (the parameters whose values decide where to stop)."""
  l, u = (0.0, 1.0) if bracket is None else bracket[1:]
  pts, gap = [l, u], u - l
  for _ in range(30):
    gap *= 2
    pts.append(pts[-1] + gap)
  return pts


def judge(ctx, key, f, bracket, tol, discrete):
  explicit = bracket is not None and bracket[0] == 'e'
  if explicit:
    pts = sorted(bracket[1:])
    kind, x, seen = calibrate(f, bracket, tol, discrete, math.floor(pts[0]) if discrete else pts[0],
                              math.ceil(pts[1]) if discrete else pts[1])
  else:
    pts = reach(bracket)
    kind, x, seen = calibrate(f, bracket, tol, discrete)
  ctx.step(len(seen))
  ctx.trace()
  fi = (lambda v: f(round(v))) if discrete else f
  ok = [fi(p) <= TARGET for p in pts]
  if all(ok) or not any(ok):
    # No boundary within reach.
    if kind == 'error':
      want = ValueError if explicit else MC.NoBracketIntervalFoundError
      ctx.check(isinstance(x, want), key, 'raises %r' % (x,))
    else:
      ctx.check(fi(x) <= TARGET, key, 'returned %r whose loss is %r > %r' % (x, f(x), TARGET))
    return
  if kind == 'error':
    ctx.fail(key, 'raises %s: %s (cause %r) though both sides of the boundary are in reach' % (type(x).__name__, x, x.__cause__))
    return
  if discrete:
    ctx.check(isinstance(x, int), key, 'returned %r, not an int' % (x,))
  ctx.check(f(x) <= TARGET, key, 'returned %r whose loss is %r > %r' % (x, f(x), TARGET))
  i = next(i for i in range(len(ok) - 1) if ok[i] != ok[i + 1])
  if discrete:
    a, b = round(pts[i]), round(pts[i + 1])
    best = next(j for j in (range(a, b + 1) if not ok[i] else range(b, a - 1, -1)) if f(j) <= TARGET)
    slack = 0 if tol is None or tol < 1 else tol
    if (ok[i]):
      best = max(j for j in range(a, b + 1) if f(j) <= TARGET)
    else:
      best = min(j for j in range(a, b + 1) if f(j) <= TARGET)
    ctx.check(abs(x - best) <= slack, key, 'returned %r, the best parameter is %r' % (x, best))
  else:
    a, b = boundary(f, pts[i], pts[i + 1])
    t = 1e-6 if tol is None else tol
    off = abs(x - (a if ok[i] else b))
    if explicit:
      ends = bracket[1:]
    else:
      ends = (pts[i], pts[i + 1])
    if f(x) == TARGET and TARGET not in (f(ends[0]), f(ends[1])):
      # A range of values strictly inside the bracket meets the target exactly.
      key = 'exact plateau strictly inside the bracket'
    ctx.check(off <= t * (1 + 1e-6) + 8e-16 * max(abs(a), abs(x)) * 4, key, 'returned %r, best is %r: further than the tolerance %g' % (
        x, a if ok[i] else b, t))


DPOS = {'a': (1, 2, 3, 7), 'b': (2, 5, 6, 11), 'c': (1, 30, 31, 400)}
DBRACKETS = {
    'none': None, 'guess': ('g', 0, 1), 'guess 3': ('g', 1, 4), 'up': ('e', 0, 10), 'down': ('e', 12, 0), 'two': ('e', 2, 3), 'far': ('e', 0, 1001),
    'reversed': ('e', 500, 1), 'neg': ('e', -4, 9),
}
DTOLS = (None, 0.2, 1.0, 3.0)


def run(case, ctx):
  if case['k'] == 'never':
    return run_never(ctx)
  if case['k'] == 'real':
    return run_real(case, ctx)
  seqs = sequences()
  for i in range(case['lo'], case['hi']):
    vals = tuple(MENU[j] for j in seqs[i])
    for inc in (True, False):
      if case['k'] == 'cont':
        cuts = POSITIONS[case['pos']]
        f = make(case['kind'], cuts, vals, inc)
        for name, br in BRACKETS.items():
          for tol in TOLS:
            key = '%s %s %s inc=%s bracket=%s tol=%s' % (case['kind'], cuts, vals, inc, name, tol)
            judge(ctx, key, f, br, tol, False)
      else:
        cuts = DPOS[case['pos']]
        f = make('right', cuts, vals, inc)
        for name, br in DBRACKETS.items():
          for tol in DTOLS:
            key = 'discrete %s %s inc=%s bracket=%s tol=%s' % (cuts, vals, inc, name, tol)
            judge(ctx, key, f, br, tol, True)
      ctx.state((case['k'], case.get('kind'), cuts, vals, inc))


def run_never(ctx):
  for v in MENU:
    for disc in (False, True):
      for name, br in (DBRACKETS if disc else BRACKETS).items():
        judge(ctx, 'constant %r bracket=%s discrete=%s' % (v, name, disc), lambda x: v, br, None, disc)
        ctx.state((v, disc, name))
  # arguments that must be refused
  ok = dict(make_fresh_accountant=lambda: Accountant(lambda x: x), make_event_from_param=Event, target_epsilon=TARGET, target_delta=DELTA,
            bracket_interval=MC.ExplicitBracketInterval(0, 10))

  def used():
    a = Accountant(lambda x: x)
    a.compose(Event(1.0))
    return a
  bad = [({'target_epsilon': -0.1}, ValueError), ({'target_delta': -0.1}, ValueError), ({'target_delta': 1.1}, ValueError), ({'tol': 0}, ValueError), ({'tol': -1.0}, ValueError),
         ({'make_fresh_accountant': 3}, TypeError), ({'make_event_from_param': None}, TypeError), ({'bracket_interval': (0, 10)}, TypeError),
         ({'bracket_interval': MC.LowerEndpointAndGuess(2, 2)}, ValueError), ({'bracket_interval': MC.LowerEndpointAndGuess(2, 1)}, ValueError),
         ({'make_fresh_accountant': used}, MC.NonEmptyAccountantError)]
  for change, err in bad:
    ctx.step()
    try:
      r = MC.calibrate_dp_mechanism(**dict(ok, **change))
      ctx.fail('refuse %s' % sorted(change), 'accepted, returned %r' % (r,))
    except err:
      ctx.ev()
    except Exception as e:
      ctx.fail('refuse %s' % sorted(change), 'raises %r instead of %s' % (e, err.__name__))


ADD = privacy_accountant.NeighboringRelation.ADD_OR_REMOVE_ONE
G = dp_event.GaussianDpEvent
RDP = rdp_privacy_accountant.RdpAccountant
PLD = pld_privacy_accountant.PLDAccountant


def _sgd(q, k):
  return lambda s: dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(q, G(s)), k)


# accountant, event from parameter, epsilon, delta, bracket, discrete, direction (+1: more parameter, more loss), grid step of the PLD
REAL = [
    (RDP, G, 1.0, 1e-5, None, False, -1),
    (RDP, G, 0.0, 0.3, None, False, -1),
    (RDP, G, 0.1, 1e-9, ('e', 500.0, 0.001), False, -1),
    (RDP, _sgd(0.01, 1000), 2.0, 1e-6, None, False, -1),
    (RDP, lambda k: dp_event.SelfComposedDpEvent(G(5.0), k), 3.0, 1e-5, ('g', 1, 2), True, 1),
    (RDP, lambda q: dp_event.PoissonSampledDpEvent(q, G(1.0)), 0.5, 1e-6, ('e', 0.0, 1.0), False, 1),
    (RDP, lambda s: dp_event.ComposedDpEvent([G(s), G(2 * s)]), 2.0, 1e-7, None, False, -1),
    (lambda: PLD(value_discretization_interval=1e-2), G, 1.0, 1e-5, None, False, -1),
    (lambda: PLD(value_discretization_interval=1e-2), dp_event.LaplaceDpEvent, 1.0, 0.0, ('e', 0.01, 10.0), False, -1),
    (lambda: PLD(value_discretization_interval=1e-2), lambda s: dp_event.SelfComposedDpEvent(dp_event.LaplaceDpEvent(s), 10), 2.0, 1e-4, ('e', 20.0, 0.5), False, -1),
    (lambda: PLD(value_discretization_interval=1e-2), lambda k: dp_event.SelfComposedDpEvent(dp_event.PoissonSampledDpEvent(0.05, G(0.8)), k), 2.0, 1e-5, ('g', 1, 2), True, 1),
    (lambda: PLD(privacy_accountant.NeighboringRelation.REPLACE_ONE, value_discretization_interval=1e-1), lambda p: dp_event.RandomizedResponseDpEvent(p, 3), 1.0, 0.01, ('e', 1e-3, 0.999), False, -1),
]


def run_real(case, ctx):
  mk, ev, eps, delta, br, disc, sign = REAL[case['i']]
  fresh = (lambda: mk()) if mk is not RDP else (lambda: RDP())
  b = None
  if br is not None:
    b = MC.LowerEndpointAndGuess(*br[1:]) if br[0] == 'g' else MC.ExplicitBracketInterval(*br[1:])
  tol = None if disc else 1e-4
  x = MC.calibrate_dp_mechanism(fresh, ev, eps, delta, b, disc, tol)
  cost = lambda v: fresh().compose(ev(v)).get_epsilon(delta)
  key = 'real #%d' % case['i']
  ctx.check(cost(x) <= eps, key, 'returned %r spends %r > %r' % (x, cost(x), eps))
  further = x + sign * (1 if disc else 2.1e-4)
  inside = True
  if br is not None and br[0] == 'e':
    inside = min(br[1:]) <= further <= max(br[1:])
  if inside and further > 0:
    ctx.check(cost(further) > eps - 1e-12, key, 'returned %r, but %r spends only %r' % (x, further, cost(further)))
  ctx.step(2)
  ctx.trace(key)
  ctx.state(key)
