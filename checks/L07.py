"""Options left out mean the safe documented value, in every spelling of a call."""
import itertools
import math

import numpy as np
from scipy import stats

from dp_accounting import dp_event
from dp_accounting import mechanism_calibration
from dp_accounting import privacy_accountant
from dp_accounting.pld import accountant
from dp_accounting.pld import common
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.pld import privacy_loss_distribution as pl
from dp_accounting.rdp import rdp_privacy_accountant

PROPERTY = 'L07'
LEVEL = 'model_checking'
RULE = '''every public constructor and helper of loss distributions, every assignment of its options to the documented
default or another value, and every way of writing that call: every subset of the options that have the default left out,
every number of options given by position, the class-level spelling and the module-level one; all spellings must give the
same loss (every epsilon of a ladder, both adjacency directions)'''
ASSUMPTIONS = ['the documented defaults are those of the public signatures: sensitivity 1, one query, no subsampling, pessimistic, '
               'interval 1e-4, truncation at 1e-15 or e^-50']

EPS = [-3.0, -1.0, -0.3, -0.05, 0.0, 0.003, 0.02, 0.0503, 0.1, 0.31, 0.6931, 1.0, 2.5, 6.0, 30.0]
REL = privacy_accountant.NeighboringRelation
PARAMS = common.DifferentialPrivacyParameters
INF = math.inf
H = 0.01
INTERVAL = ('value_discretization_interval', 1e-4, [H])
PESS = ('pessimistic_estimate', True, [False])


def cdf(x):
  return stats.norm.cdf(x, 0.0002, 0.02)


# name -> (required (name, values), options (name, default, others) in the order of the signature, class-level spelling takes
# the first n options; None where there is no such spelling)
TABLE = {
    'identity': ([{}], [INTERVAL], 1),
    'from_two_probability_mass_functions': (
        [{'log_probability_mass_function_lower': {0: math.log(.5), 1: math.log(.3), 2: math.log(.2)},
          'log_probability_mass_function_upper': {0: math.log(.2), 1: math.log(.7), 2: math.log(.1)}},
         {'log_probability_mass_function_lower': {0: math.log(.9), 1: -23.0, 2: math.log(.1)},
          'log_probability_mass_function_upper': {0: math.log(.1), 1: -26.0, 2: math.log(.9)}}],
        [PESS, INTERVAL, ('log_mass_truncation_bound', -INF, [-20.0]), ('symmetric', True, [False])], 3),
    'create_from_cdf': ([{'cdf': cdf}], [PESS, INTERVAL, ('tail_mass_truncation', 1e-15, [1e-6])], 3),
    'from_randomized_response': (
        [{'noise_parameter': 0.4, 'num_buckets': 3}, {'noise_parameter': 0.9, 'num_buckets': 2}],
        [PESS, INTERVAL, ('neighboring_relation', REL.REPLACE_ONE, [REL.REPLACE_SPECIAL])], 2),
    'from_laplace_mechanism': (
        [{'parameter': 3.0}, {'parameter': 1.3}],
        [('sensitivity', 1, [0.5]), PESS, INTERVAL, ('sampling_prob', 1.0, [0.2]), ('use_connect_dots', True, [False])], 4),
    'from_gaussian_mechanism': (
        [{'standard_deviation': 15.0}],
        [('sensitivity', 1, [0.5]), PESS, INTERVAL, ('log_mass_truncation_bound', -50, [-12]), ('sampling_prob', 1.0, [0.2]),
         ('use_connect_dots', True, [False])], 5),
    'from_discrete_laplace_mechanism': (
        [{'parameter': 0.7}],
        [('sensitivity', 1, [3]), PESS, INTERVAL, ('sampling_prob', 1.0, [0.2]), ('use_connect_dots', False, [True])], 4),
    'from_discrete_gaussian_mechanism': (
        [{'sigma': 1.1}],
        [('sensitivity', 1, [2]), ('truncation_bound', None, [4]), PESS, INTERVAL, ('sampling_prob', 1.0, [0.2]),
         ('use_connect_dots', False, [True])], 5),
    'from_mixture_gaussian_mechanism': (
        [{'standard_deviation': 60.0, 'sensitivities': [0.0, 1.0, 2.0], 'sampling_probs': [0.7, 0.2, 0.1]}],
        [PESS, INTERVAL, ('log_mass_truncation_bound', -50, [-12]), ('use_connect_dots', True, [False])], None),
    'from_privacy_parameters': (
        [{'privacy_parameters': PARAMS(0.505, 0.01)}, {'privacy_parameters': PARAMS(2.0, 0.0)}], [INTERVAL], 1),
}
G = PARAMS(1.0, 1e-5)
TWO = [('num_queries', 1, [3]), ('sensitivity', 1, [2])]
NUMBERS = {
    'get_smallest_laplace_noise': ([{'privacy_parameters': G}, {'privacy_parameters': PARAMS(0.3, 0.0)}], TWO),
    'get_smallest_discrete_laplace_noise': ([{'privacy_parameters': G}], TWO),
    'get_smallest_gaussian_noise': ([{'privacy_parameters': G}], TWO),
    'get_smallest_subsampled_gaussian_noise': ([{'privacy_parameters': G}], TWO + [('sampling_prob', 1.0, [0.3])]),
    'get_smallest_epsilon_from_advanced_composition': (
        [{'total_privacy_parameters': PARAMS(1.0, 1e-3), 'num_queries': 5}], [('delta', 0, [1e-5])]),
}


def assignments(opts):
  return itertools.product(*[range(1 + len(o[2])) for o in opts])


def cases(tier):
  for name, (reqs, opts, _) in TABLE.items():
    for i in range(len(reqs)):
      for a in assignments(opts):
        yield {'k': 'pld', 'f': name, 'r': i, 'a': a}
  for name, (reqs, opts) in NUMBERS.items():
    for i in range(len(reqs)):
      for a in assignments(opts):
        yield {'k': 'num', 'f': name, 'r': i, 'a': a}
  for k in ('compose', 'rounded', 'accountants', 'calibrate'):
    yield {'k': k}


def value(o, i):
  return o[1] if i == 0 else o[2][i - 1]


def spellings(req, opts, a):
  """Every (args, kwargs) that writes the same call (with the costly default interval: all but each, and each, left out)."""
  full = [(o[0], value(o, i)) for o, i in zip(opts, a)]
  seen = []
  for mask in itertools.product((False, True), repeat=len(opts)):  # left out?
    if any(m and i for m, i in zip(mask, a)):
      continue
    if len(opts) > 1 and sum(mask) not in (0, 1, len(opts) - sum(map(bool, a))) and any(
        o is INTERVAL and not i for o, i in zip(opts, a)):
      continue
    seen.append(([], dict(req, **{n: v for (n, v), m in zip(full, mask) if not m})))
  for n in range(1, len(opts) + 1):  # required and n options by position, the rest left out where possible
    args = list(req.values()) + [v for _, v in full[:n]]
    seen.append((args, {k: v for (k, v), i in zip(full[n:], a[n:]) if i}))
  return dict(req, **dict(full)), seen


def curve(p):
  out = [p.get_delta_for_epsilon(EPS)]
  for q in (p._pmf_remove, p._pmf_add) if hasattr(p, '_pmf_add') else ():
    out.append(q.get_delta_for_epsilon(EPS))
  return np.concatenate([np.asarray(o, float) for o in out])


def same(ctx, key, want, got, what):
  ctx.step()
  ctx.check(want.shape == got.shape and np.allclose(got, want, rtol=1e-9, atol=1e-16), key,
            '%s gives another loss: deltas %s, should be %s' % (what, got[:5], want[:5]))


def show(args, kw):
  return '(%s)' % ', '.join(['%.20s' % (x,) for x in args] + ['%s=%.20s' % (k, v) for k, v in kw.items()])


def run_pld(case, ctx):
  reqs, opts, ncls = TABLE[case['f']]
  req = reqs[case['r']]
  f = getattr(pl, case['f'])
  full, ways = spellings(req, opts, case['a'])
  key = case['f'] + show([], full)
  want = curve(f(**full))
  ctx.state(key)
  for args, kw in ways:
    same(ctx, key, want, curve(f(*args, **kw)), 'the call ' + show(args, kw))
  if ncls is not None and not any(case['a'][ncls:]):
    g = getattr(pl.PrivacyLossDistribution, case['f'])
    for args, kw in spellings(req, opts[:ncls], case['a'][:ncls])[1]:
      same(ctx, key, want, curve(g(*args, **kw)), 'the class-level call ' + show(args, kw))
  ctx.ev(key)
  ctx.trace({'call': key})


def run_num(case, ctx):
  reqs, opts = NUMBERS[case['f']]
  f = getattr(accountant, case['f'], None)
  if f is None:
    return
  full, ways = spellings(reqs[case['r']], opts, case['a'])
  key = case['f'] + show([], full)
  want = f(**full)
  ctx.state(key)
  for args, kw in ways:
    got = f(*args, **kw)
    ctx.step()
    ctx.check(abs(got - want) <= 1e-9 * abs(want), key, 'the call %s gives %r, should be %r' % (show(args, kw), got, want))
  ctx.ev(key)
  ctx.trace()


def run_compose(case, ctx):
  mk = [lambda: pl.from_gaussian_mechanism(1.0, value_discretization_interval=H),
        lambda: pl.from_laplace_mechanism(2.0, value_discretization_interval=H, sampling_prob=0.3),
        lambda: pl.from_randomized_response(0.5, 3, value_discretization_interval=H),
        lambda: pl.from_discrete_laplace_mechanism(0.4, value_discretization_interval=H, sampling_prob=0.1),
        lambda: pl.from_privacy_parameters(PARAMS(0.5, 0.01), H)]
  for i, a in enumerate(mk):
    for j, b in enumerate(mk):
      want = curve(a().compose(b(), tail_mass_truncation=1e-15))
      same(ctx, 'compose %d %d' % (i, j), want, curve(a().compose(b())), 'compose without a truncation')
      same(ctx, 'compose %d %d' % (i, j), want, curve(a().compose(b(), 1e-15)), 'compose by position')
      ctx.state(('compose', i, j))
      # leaving the truncation out keeps nearly everything
      none = curve(a().compose(b(), tail_mass_truncation=0))
      ctx.check(np.all(np.abs(want - none) <= 1e-14), 'compose %d %d' % (i, j), 'default truncation loses mass')
    for n in (1, 2, 3, 7):
      want = curve(a().self_compose(n, tail_mass_truncation=1e-15))
      same(ctx, 'self_compose %d %d' % (i, n), want, curve(a().self_compose(n)), 'self_compose without a truncation')
      same(ctx, 'self_compose %d %d' % (i, n), want, curve(a().self_compose(num_times=n)), 'self_compose by name')
      none = curve(a().self_compose(n, tail_mass_truncation=0))
      ctx.check(np.all(np.abs(want - none) <= 1e-12), 'self_compose %d %d' % (i, n), 'default truncation loses mass')
      ctx.state(('self', i, n))
  ctx.ev('compose')
  ctx.trace()


def run_rounded(case, ctx):
  f = pl.PrivacyLossDistribution.create_from_rounded_probability
  up = {-30: 0.25, 0: 0.1, 31: 0.6}
  add = {-31: 0.2, 5: 0.7}
  for pess in (True, False):
    for inf in (0.05, 0.0):
      # leaving pessimistic out means pessimistic; leaving the second direction out means symmetric
      one = f(up, inf, H, pessimistic_estimate=pess)
      key = 'rounded %s %g' % (pess, inf)
      want = np.array([inf + sum(p * max(0.0, -math.expm1(e - H * k)) for k, p in up.items()) for e in EPS])
      same(ctx, key, want, np.asarray(one.get_delta_for_epsilon(EPS)), 'the definition')
      if pess:
        same(ctx, key, curve(one), curve(f(up, inf, H)), 'leaving out every option')
      same(ctx, key, curve(one), curve(f(up, inf, H, pess)), 'options by position')
      same(ctx, key, curve(one), curve(f(up, inf, H, pess, None, None, True)), 'options by position')
      two = f(up, inf, H, pess, add, 0.1, symmetric=False)
      wadd = np.array([0.1 + sum(p * max(0.0, -math.expm1(e - H * k)) for k, p in add.items()) for e in EPS])
      same(ctx, key, np.maximum(want, wadd), np.asarray(two.get_delta_for_epsilon(EPS)), 'two directions')
      # an optimistic and a pessimistic distribution must not be composed; the flag must have arrived
      other = pl.from_laplace_mechanism(1.0, value_discretization_interval=H, pessimistic_estimate=pess)
      for p in (one, two):
        ctx.step()
        try:
          p.compose(other)
        except ValueError:
          ctx.check(False, key, 'refuses to compose distributions of the same kind')
        wrong = pl.from_laplace_mechanism(1.0, value_discretization_interval=H, pessimistic_estimate=not pess)
        try:
          p.compose(wrong)
          ctx.check(False, key, 'composes a pessimistic and an optimistic distribution')
        except ValueError:
          ctx.check(True, key, '')
      ctx.state(key)
  ctx.ev('rounded')
  ctx.trace()


EVENTS = [dp_event.GaussianDpEvent(4.0), dp_event.LaplaceDpEvent(2.0),
          dp_event.PoissonSampledDpEvent(0.2, dp_event.GaussianDpEvent(3.0)),
          dp_event.SampledWithoutReplacementDpEvent(10, 3, dp_event.GaussianDpEvent(5.0)),
          dp_event.RandomizedResponseDpEvent(0.5, 3), dp_event.NonPrivateDpEvent()]


def losses(acc, event, count):
  if not acc.supports(event):
    return None
  acc.compose(event, count)
  return [acc.get_epsilon(d) for d in (1e-9, 1e-5, 1e-2)] + [acc.get_delta(e) for e in (0.1, 1.0, 3.0)]


def equal(a, b):
  return (a is None) == (b is None) and (a is None or all(
      x == y or abs(x - y) <= 1e-9 * abs(y) + 1e-15 for x, y in zip(a, b)))


def run_accountants(case, ctx):
  R, P = rdp_privacy_accountant.RdpAccountant, pld_privacy_accountant.PLDAccountant
  orders = [float(o) for o in R().orders]
  ctx.check(all(o > 1 for o in orders), 'default orders', 'an order at most 1')
  one = REL.ADD_OR_REMOVE_ONE
  ways = [('rdp', lambda: R(orders=orders, neighboring_relation=one),
           [lambda: R(), lambda: R(None), lambda: R(None, one), lambda: R(neighboring_relation=one), lambda: R(orders=orders)]),
          ('pld', lambda: P(neighboring_relation=one, value_discretization_interval=1e-4),
           [lambda: P(), lambda: P(one), lambda: P(one, 1e-4), lambda: P(value_discretization_interval=1e-4)])]
  for name, full, others in ways:
    for e in EVENTS:
      want = losses(full(), e, 1)
      want3 = losses(full(), e, 3)
      for i, o in enumerate(others):
        key = '%s %s way %d' % (name, e, i)
        ctx.state(key)
        ctx.step()
        ctx.check(o().neighboring_relation == one, key, 'assumes another neighbouring relation: %s' % o().neighboring_relation)
        got = losses(o(), e, 3)
        ctx.check(equal(got, want3), key, 'losses %s, should be %s' % (got, want3))
        if want is not None:  # the count left out is one
          acc = o().compose(e)
          got = [acc.get_epsilon(d) for d in (1e-9, 1e-5, 1e-2)]
          ctx.check(equal(got, want), key, 'count left out: losses %s, should be %s' % (got, want))
  # every other relation and interval must arrive, in both spellings
  for rel in REL:
    for e in EVENTS:
      key = '%s %s' % (rel, e)
      ctx.state(key)
      ctx.step()
      a = losses(P(neighboring_relation=rel), e, 2)
      ctx.check(equal(losses(P(rel, 1e-4), e, 2), a), 'pld ' + key, 'spellings differ')
      b = losses(R(neighboring_relation=rel), e, 2)
      ctx.check(equal(losses(R(None, rel), e, 2), b), 'rdp ' + key, 'spellings differ')
      ctx.check(P(rel).neighboring_relation == rel and R(None, rel).neighboring_relation == rel, key, 'relation not kept')
  ctx.ev('accountants')
  ctx.trace()


def run_calibrate(case, ctx):
  cal = mechanism_calibration
  mk = lambda s: dp_event.GaussianDpEvent(s)
  fresh = rdp_privacy_accountant.RdpAccountant
  for eps, delta in ((1.0, 1e-5), (0.2, 1e-3), (5.0, 1e-7)):
    key = 'calibrate %g %g' % (eps, delta)
    want = cal.calibrate_dp_mechanism(fresh, mk, eps, delta, cal.LowerEndpointAndGuess(0, 1), False, 1e-6)
    for kw in ({}, {'tol': 1e-6}, {'discrete': False}, {'bracket_interval': None}, {'tol': None},
               {'bracket_interval': cal.LowerEndpointAndGuess(0, 1)}):
      ctx.step()
      ctx.state((key, str(kw)))
      got = cal.calibrate_dp_mechanism(fresh, mk, eps, delta, **kw)
      ctx.check(abs(got - want) <= 2e-6, key + str(sorted(kw)), 'parameter %r, should be %r' % (got, want))
    steps = lambda n: dp_event.SelfComposedDpEvent(dp_event.GaussianDpEvent(60.0), n)
    b = cal.ExplicitBracketInterval(1, 3000)
    ints = [cal.calibrate_dp_mechanism(fresh, steps, eps, delta, b, True, tol) for tol in (1, 1.0, None)]
    ints.append(cal.calibrate_dp_mechanism(fresh, steps, eps, delta, bracket_interval=b, discrete=True))
    ctx.check(len(set(ints)) == 1 and all(isinstance(i, int) for i in ints), key, 'integer answers differ: %s' % ints)
  ctx.ev('calibrate')
  ctx.trace()


def run(case, ctx):
  globals()['run_' + case['k']](case, ctx)
