"""The auditor's mechanisms, test loop and dataset generators."""
import itertools
import math

import numpy as np
from scipy import integrate

from mc import aud

aud.install()

from dp_auditorium import privacy_test_runner as ptr
from dp_auditorium.configs import dataset_generator_config as dgc
from dp_auditorium.configs import mechanism_config as mcfg
from dp_auditorium.configs import privacy_property as pp
from dp_auditorium.configs import privacy_test_runner_config as rcfg
from dp_auditorium.generators import classification_dataset_generator as cg
from dp_auditorium.generators import constant_dataset_generator as kg
from dp_auditorium.generators import pipeline_dp_vizier_dataset_generator as pg
from dp_auditorium.generators import vizier_dataset_generator as vg
from dp_auditorium.mechanisms import mean
from dp_auditorium.mechanisms import mechanisms_utils
from dp_auditorium.mechanisms import noisy_max
from dp_auditorium.mechanisms import sparse_vector_technique as svt
from dp_auditorium.mechanisms.pipeline_dp import aggregation

PROPERTY = 'D02'
LEVEL = 'model_checking'
RULE = '''mechanisms: every noise vector of a grid, on every small dataset, against reference implementations of the documented
algorithms, and the privacy of the drawn noise by exact probabilities of every output; test loop: every sequence of
estimates up to the bound; generators: every trial history (result, zero, none, refused suggestion) up to the bound'''
ASSUMPTIONS = ['vizier and pipeline_dp are replaced by recording stand-ins',
               'neighbours of the sparse vector and mean mechanisms replace a record (or add one where 0 is in the value range)']

V = mcfg.DataValues
NO, AB, BE = V.SVT_NO_RESPONSE, V.SVT_ABOVE_THRESHOLD, V.SVT_BELOW_THRESHOLD


def close(a, b, tol=1e-9):
  a, b = float(a), float(b)
  if math.isnan(a) or math.isnan(b):
    return math.isnan(a) and math.isnan(b)
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def refused(f, *a, kind=ValueError, **k):
  try:
    f(*a, **k)
  except kind:
    return True
  return False


def cases(tier):
  t = tier == 'thorough'
  for v in range(1, 7):
    for q in ([2, 3, 4] if t else [2, 3]):
      for c in range(1, q + 2):
        yield {'k': 'svt', 'v': v, 'q': q, 'c': c}
  for v in (1, 2, 4):
    for eps in [0.3, 1.0] + ([3.0] if t else []):
      for q in ([1, 2, 3, 4] if t else [1, 2, 3]):
        for c in range(1, q + 1):
          yield {'k': 'svt-dp', 'v': v, 'eps': eps, 'q': q, 'c': c}
  for eps in (0.2, 1.0, 4.0):
    yield {'k': 'max', 'eps': eps, 'n': 4 if t else 3}
    for delta in (0.0, 1e-5, 0.1):
      yield {'k': 'mean', 'eps': eps, 'delta': delta}
    yield {'k': 'mean-dp', 'eps': eps}
  yield {'k': 'utils'}
  for n in range(0, 6 if t else 5):
    yield {'k': 'runner', 'n': n}
  yield {'k': 'post'}
  for kind in ('scalar', 'int', 'class', 'pipe'):
    yield {'k': 'gen', 'kind': kind, 'depth': 6 if t else 5}
  yield {'k': 'gen-data'}
  yield {'k': 'pipe-columns'}
  yield {'k': 'aggregate'}


def run(case, ctx):
  {'svt': run_svt, 'svt-dp': run_svt_dp, 'max': run_max, 'mean': run_mean, 'mean-dp': run_mean_dp, 'utils': run_utils,
   'runner': run_runner, 'post': run_post, 'gen': run_gen, 'gen-data': run_gen_data, 'pipe-columns': run_columns,
   'aggregate': run_aggregate}[case['k']](case, ctx)


# -- random numbers from a table --------------------------------------------

class Rng:
  """Draws rows of a table: one column block for arrays of width 1, another for wider ones."""

  def __init__(self, one=None, many=None):
    self.one, self.many = one, many
    self.draws = []

  def _draw(self, kind, loc, scale, size):
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    self.draws.append((kind, loc, scale, shape))
    wide = len(shape) == 2 and shape[1] > 1
    src = self.many if wide else self.one
    if callable(src):
      src = src(len(self.draws) - 1)
    return loc + np.asarray(scale) * np.asarray(src, dtype=float).reshape(shape)

  def laplace(self, loc=0.0, scale=1.0, size=None):
    return self._draw('laplace', loc, scale, size)

  def normal(self, loc=0.0, scale=1.0, size=None):
    return self._draw('normal', loc, scale, size)

  def gumbel(self, loc=0.0, scale=1.0, size=None):
    return self._draw('gumbel', loc, scale, size)


# -- sparse vector technique ------------------------------------------------

SVT = {i: getattr(svt, 'SVT%d' % i) for i in range(1, 7)}


def svt_scales(v, eps, sens, c):
  """(query noise or None, threshold noise) as documented."""
  return {1: (4 * c * sens / eps, 2 * sens / eps), 2: (4 * c * sens / eps, 2 * c * sens / eps),
          3: (2 * c * sens / eps, 2 * sens / eps), 4: (4 * sens / (3 * eps), 4 * sens / eps),
          5: (None, 2 * sens / eps), 6: (2 * sens / eps, 2 * sens / eps)}[v]


def svt_row(v, qs, noise, thr, c):
  out, n = [], 0
  for q, z in zip(qs, noise):
    if n >= c:
      out.append(NO)
      continue
    above = q + z >= thr
    n += above
    out.append((q + z if v == 3 else AB) if above else BE)
  return out


def queries(kind, data, lo, hi, q):
  d = [min(hi, max(lo, x)) for x in data]
  if kind == 'SUM':
    return [float(sum(d))] * q
  return [float(d[-1])] * (q - 1) + [float(d[-2])]


def svt_make(v, eps, lo, hi, kind, q, thr, c, rng):
  return SVT[v](mcfg.SVTMechanismConfig(epsilon=eps, max_value=hi, min_value=lo, query_type=getattr(
      mcfg.QueryType, 'QUERY_TYPE_' + kind), num_queries=q, threshold=thr, max_answered_queries=c), rng)


def same(a, b):
  if isinstance(a, V) or isinstance(b, V):
    return a is b
  return close(a, b)


def run_svt(case, ctx):
  v, q, c = case['v'], case['q'], case['c']
  unit = [-1.0, 0.0, 1.0] if q < 4 else [-1.0, 1.0]
  combos = list(itertools.product(unit, repeat=q + 1))
  one = np.array([[x[0]] for x in combos])
  many = np.array([x[1:] for x in combos])
  for eps, lo, hi, thr in [(1.0, 0.0, 1.0, 0.5), (0.5, -1.0, 2.0, 1.0), (3.0, -2.0, 0.0, -1.0)]:
    for kind in ('SUM', 'REVEAL_RECORDS'):
      for data in [[0.0, 1.0], [5.0, -7.0], [0.3, 0.9, -0.4], [1.0, 0.0, 0.0, 1.0]] + ([[], [0.4]] if kind == 'SUM' else []):
        for rows in (slice(None), slice(0, 1), slice(3, 7)):
          rng = Rng(one[rows], many[rows])
          m = svt_make(v, eps, lo, hi, kind, q, thr, c, rng)
          n = len(combos[rows])
          got = m(np.array(data), n)
          ctx.step(n)
          key = 'svt%d eps=%g [%g,%g] thr=%g %s %r q=%d c=%d' % (v, eps, lo, hi, thr, kind, data, q, c)
          sq, st = svt_scales(v, eps, hi - lo, c)
          want_draws = sorted([('laplace', st, 1)] + ([('laplace', sq, q)] if sq is not None else []))
          drawn = sorted((k, float(np.max(s)), sh[1] if len(sh) == 2 else 1) for k, l, s, sh in rng.draws)
          if not ctx.check(len(drawn) == len(want_draws) and all(
              a[0] == b[0] and close(a[1], b[1]) and a[2] == b[2] for a, b in zip(drawn, want_draws)), key,
                           'noise %r, should be %r' % (drawn, want_draws)):
            continue
          qs = queries(kind, data, lo, hi, q)
          ctx.check(got.shape == (n, q), key, 'shape %r' % (got.shape,))
          for x, row in zip(combos[rows], got.tolist()):
            want = svt_row(v, qs, [0.0 if sq is None else sq * z for z in x[1:]], thr + st * x[0], c)
            ctx.state(tuple(map(str, want)))
            if not ctx.check(all(same(a, b) for a, b in zip(row, want)), key + ' noise %r' % (x,),
                             'answers %r, should be %r' % (row, want)):
              break
  m = svt_make(v, 1.0, 0.0, 1.0, 'SUM', q, 0.0, c, Rng(np.zeros((1, 1)), np.zeros((1, q))))
  ctx.check(refused(m, np.zeros((2, 2)), 1), 'svt%d 2-d data' % v, 'accepted')
  m = svt_make(v, 1.0, 0.0, 1.0, 'REVEAL_RECORDS', q, 0.0, c, Rng(np.zeros((1, 1)), np.zeros((1, q))))
  ctx.check(refused(m, np.array([1.0]), 1), 'svt%d one record' % v, 'accepted')
  ctx.check(refused(svt_make, v, 1.0, 0.0, 1.0, 'UNSPECIFIED', q, 0.0, c, Rng()), 'svt%d query type' % v, 'accepted')
  ctx.trace()


def lap_cdf(x):
  return 0.5 * math.exp(x) if x < 0 else 1 - 0.5 * math.exp(-x)


def run_svt_dp(case, ctx):
  """Which answers come from which noise is read off the real code; the noise is integrated out."""
  v, eps, q, c = case['v'], case['eps'], case['q'], case['c']
  rng = Rng(np.zeros((1, 1)), np.zeros((1, max(q, 2))))
  qq = max(q, 2)
  m = svt_make(v, eps, 0.0, 1.0, 'SUM', qq, 0.5, c, rng)
  m(np.array([0.2]), 1)
  sc = {('q' if sh[-1] > 1 else 't'): float(np.max(s)) for _, _, s, sh in rng.draws}
  if 'q' not in sc or 't' not in sc:
    ctx.fail('svt-dp%d' % v, 'queries or threshold carry no noise: %r' % (rng.draws,))
    return
  bq, bt = sc['q'], sc['t']
  allowed = eps if v in (1, 2) else (1 + 6 * c) / 4 * eps

  def prob(qs, pattern):
    pts = sorted({0.0} | {x - 0.5 for x in qs})

    def f(r):
      p = math.exp(-abs(r) / bt) / (2 * bt)
      for x, above in zip(qs, pattern):
        a = 1 - lap_cdf((0.5 + r - x) / bq)
        p *= a if above else 1 - a
      return p
    lo, hi = -45 * bt, 45 * bt
    grid = [lo] + [x for x in pts if lo < x < hi] + [hi]
    return sum(integrate.quad(f, a, b, epsabs=1e-13, epsrel=1e-10, limit=200)[0] for a, b in zip(grid, grid[1:]))

  patterns = []
  for n in range(1, q + 1):
    for pat in itertools.product((0, 1), repeat=n):
      if sum(pat[:-1]) < c and (n == q or sum(pat) == c):
        patterns.append(pat)
  base = [0.0, 1.3]
  cache = {}

  def pr(qs, pat):
    k = (qs[:len(pat)], pat)
    if k not in cache:
      cache[k] = prob(*k)
    return cache[k]

  for qs in itertools.product(base, repeat=q):
    tot = sum(pr(qs, pat) for pat in patterns)
    ctx.check(abs(tot - 1) < 1e-7, 'svt-dp%d' % v, 'probabilities sum to %r' % tot)
    for d in itertools.product((-1.0, 0.0, 1.0), repeat=q):
      if not any(d):
        continue
      qn = tuple(x + y for x, y in zip(qs, d))
      for pat in patterns:
        a, b = pr(qs, pat), pr(qn, pat)
        ctx.step()
        ctx.ev()
        if a > 1e-12 and math.log(a / max(b, 1e-300)) > allowed * (1 + 1e-6) + 1e-6:
          ctx.fail('svt%d-dp eps=%g q=%d c=%d' % (v, eps, q, c), 'answers %r: loss %g above %g between %r and %r' % (
              pat, math.log(a / b), allowed, qs, qn))
        ctx.state((qs, qn, pat))
  ctx.trace()


# -- noisy max --------------------------------------------------------------

def run_max(case, ctx):
  eps, n = case['eps'], case['n']
  for k in (1, 2, 3):
    combos = list(itertools.product([-1.0, -0.1, 0.0, 0.7, 2.0] if k < 3 else [-1.0, 0.0, 0.7], repeat=k))
    noise = np.array(combos)
    dists = {}
    for size in range(n + 1):
      for data in itertools.combinations_with_replacement(range(k), size):
        rng = Rng(noise, noise)
        m = noisy_max.NoisyMaxMechanism(mcfg.NoisyMaxMechanismConfig(epsilon=eps, num_elements=k), rng)
        got = m(np.array(data[::-1], dtype=int), len(combos))
        ctx.step(len(combos))
        key = 'max eps=%g k=%d %r' % (eps, k, data)
        if not ctx.check(len(rng.draws) == 1 and rng.draws[0][0] == 'gumbel' and rng.draws[0][3] == (len(combos), k), key,
                         'noise %r' % (rng.draws,)):
          continue
        scale = float(np.max(rng.draws[0][2]))
        counts = [data.count(i) for i in range(k)]
        for z, g in zip(combos, np.asarray(got).tolist()):
          tot = [cn + scale * x for cn, x in zip(counts, z)]
          ctx.check(0 <= g < k and tot[g] >= max(tot) - 1e-9, key + ' noise %r' % (z,), 'answer %r for %r' % (g, tot))
        # Gumbel noise of scale s picks j with probability proportional to exp(count_j / s)
        w = [math.exp(cn / scale) for cn in counts]
        dists[tuple(counts)] = [x / sum(w) for x in w]
        ctx.state((k, tuple(counts)))
    for a, pa in dists.items():
      for i in range(k):
        b = tuple(x + (j == i) for j, x in enumerate(a))
        if b in dists:
          loss = max(abs(math.log(x / y)) for x, y in zip(pa, dists[b]))
          ctx.check(loss <= eps + 1e-9, 'max eps=%g k=%d %r %r' % (eps, k, a, b), 'privacy loss %g' % loss)
  ctx.trace()


# -- mean -------------------------------------------------------------------

UNIT = [-3.0, -0.4, 0.0, 0.25, 2.0]


def mean_make(eps, delta, um, us, lo, hi, rng):
  return mean.MeanMechanism(mcfg.MeanMechanismConfig(
      epsilon=eps, delta=delta, use_noised_counts_for_calculating_mean=um,
      use_noised_counts_for_calculating_noise_scale=us, max_value=hi, min_value=lo), rng)


def run_mean(case, ctx):
  eps, delta = case['eps'], case['delta']
  combos = list(itertools.product(UNIT, repeat=2))
  u1 = np.array([[x[0]] for x in combos])
  u2 = np.array([[x[1]] for x in combos])
  for um, us in itertools.product((False, True), repeat=2):
    for lo, hi in ((0.0, 1.0), (-1.0, 2.0), (-3.0, 0.0)):
      for data in ([0.5], [0.0, 1.0], [7.0, -9.0, 0.25], [1.0] * 5):
        rng = Rng(lambda i: u1 if i == 0 else u2)
        m = mean_make(eps, delta, um, us, lo, hi, rng)
        got = m(np.array(data), len(combos))
        ctx.step(len(combos))
        key = 'mean eps=%g delta=%g %s%s [%g,%g] %r' % (eps, delta, um, us, lo, hi, data)
        half = 0.5 if um or us else 1.0
        n, s = len(data), sum(min(hi, max(lo, x)) for x in data)
        f = 1.0 if delta == 0 else math.sqrt(2 * math.log(1.25 / delta))
        kind = 'laplace' if delta == 0 else 'normal'
        if um or us:
          ok = len(rng.draws) == 2 and rng.draws[0][0] == 'laplace' and close(np.max(rng.draws[0][2]), 1 / (half * eps))
        else:
          ok = len(rng.draws) in (1, 2)
        ok = ok and rng.draws[-1][0] == kind
        if not ctx.check(ok, key, 'noise %r' % ([(a, float(np.max(c))) for a, b, c, d in rng.draws],)):
          continue
        first = u1 if len(rng.draws) == 2 else u1 * 0
        last = u2 if len(rng.draws) == 2 else u1
        for i in range(len(combos)):
          cn = n + float(first[i, 0]) / (half * eps)
          cm, cs = (cn if um else n), (cn if us else n)
          if cm == 0 or cs == 0:
            continue
          scale = max(1e-12, f * (hi - lo) / (half * eps) / abs(cs))
          want = s / cm + scale * float(last[i, 0])
          ctx.check(close(got[i, 0], want), key + ' noise %r' % (combos[i],), 'mean %r, should be %r' % (float(got[i, 0]), want))
          ctx.state((um, us, cn > 0, delta == 0))
        ctx.check(got.shape == (len(combos), 1), key, 'shape %r' % (got.shape,))
  ctx.trace()


def run_mean_dp(case, ctx):
  """(sum + Laplace noise) and the noised count are what the private mean may depend on.

  For every count noise the mean is sum/count plus noise of the recorded scale: it is a function of sum + scale * count * noise,
  which has to hide a replaced record (half the budget), whatever the noised count is; the noised count hides an added one.
  """
  eps = case['eps']
  grid = [-60.0, -5.0, -1.5, -0.3, 0.0, 0.4, 1.0, 8.0, 60.0]
  for name in ('private_mean',):
    cfg = mechanisms_utils.default_mean_mechanism_config_generator(name, epsilon=eps)
    for data in ([], [0.0], [1.0], [0.0, 1.0], [0.5] * 6):
      rng = Rng(lambda i: np.array(grid).reshape(-1, 1))
      mean.MeanMechanism(cfg, rng)(np.array(data), len(grid))
      ctx.step(len(grid))
      key = 'mean-dp %s eps=%g n=%d' % (name, eps, len(data))
      if not ctx.check(len(rng.draws) == 2, key, 'draws %r' % (rng.draws,)):
        continue
      (_, loc, bc, _), (_, _, bs, _) = rng.draws
      count_loss = 1 / float(np.max(bc))
      sc = np.broadcast_to(np.asarray(bs, dtype=float), (len(grid), 1))
      for i, z in enumerate(grid):
        noisy = len(data) + float(np.max(bc)) * z
        if noisy == 0:
          continue
        # replacing (or, as 0 <= x <= 1, adding) a record moves the sum by at most 1, the mean by 1 / |count|
        sum_loss = 1 / abs(noisy) / float(sc[i, 0])
        ctx.state((len(data), i))
        ctx.check(count_loss + sum_loss <= eps * (1 + 1e-9), key + (' count<0' if noisy < 0 else ' count>0'),
                  'noised count %g: privacy loss %g above %g' % (noisy, count_loss + sum_loss, eps))
  ctx.trace()


def run_utils(case, ctx):
  for e, d in itertools.product((0.1, 2.0), (0.0, 0.3)):
    for name, um, us in (('non_private_mean_v1', False, False), ('non_private_mean_v2', False, True), ('private_mean', True, True)):
      c = mechanisms_utils.default_mean_mechanism_config_generator(name, e, d)
      ctx.step()
      ctx.check((c.epsilon, c.delta, c.use_noised_counts_for_calculating_mean, c.use_noised_counts_for_calculating_noise_scale,
                 c.min_value, c.max_value) == (e, d, um, us, 0.0, 1.0), 'utils %s' % name, 'config %r' % (c,))
  ctx.check(refused(mechanisms_utils.default_mean_mechanism_config_generator, 'other', 1.0, kind=AttributeError), 'utils', 'unknown name accepted')
  for nm, a in itertools.product((0.3, 1.0, 7.0), (1.5, 8)):
    ctx.check(close(mechanisms_utils.get_wrong_one_step_gd_budget(nm, a), a / (2 * nm * nm)), 'utils budget', 'wrong wrong budget')
  ctx.trace()


# -- test loop --------------------------------------------------------------

class FakeTester:

  def __init__(self, seq, bar, log):
    self.seq, self.bar, self.log = seq, bar, log
    self.n = 0

  privacy_property = pp.PrivacyProperty(pure_dp=pp.PureDp(1.25))

  def estimate_lower_bound(self, a, b, failure_probability):
    self.log.append(('estimate', tag(a), tag(b), failure_probability))
    pair = self.seq[self.n // 2]
    self.n += 1
    # the estimate belongs to the direction, not to the order of the calls
    return pair[0] if tag(a) < tag(b) else pair[1]

  def reject_property(self, lb):
    self.log.append(('reject', lb))
    return lb > self.bar


def tag(x):
  return float(np.asarray(x).reshape(-1)[0])


def run_runner(case, ctx):
  n = case['n']
  vals = [(-1.0, -2.0), (-2.0, 0.0), (0.3, 0.1), (0.1, 0.9), (0.9, -1.0)]
  for seq in itertools.product(vals, repeat=n):
    for bar in (0.0, 0.5):
      log = []
      given = []

      def gen(div):
        given.append(div)
        i = len(given)
        return [i, 1], [i, 2]

      def mech(data, size):
        log.append(('mechanism', tuple(data), size))
        return np.full(size, data[0] + data[1] / 10.0)

      cfg = rcfg.PrivacyTestRunnerConfig(property_tester=rcfg.PropertyTester.HISTOGRAM_TESTER, max_num_trials=n,
                                         failure_probability=0.07, num_samples=5, post_processing=rcfg.PostProcessing.NONE)
      t = FakeTester(seq, bar, log)
      r = ptr.PrivacyTestRunner(cfg, gen, t)
      for rep in range(2):  # the runner keeps nothing from one test to the next
        del log[:], given[:]
        t.n = 0
        res = r.test_privacy(mech, 'm%d' % rep)
        ctx.step(len(log))
        key = 'runner %r bar=%g' % (seq, bar)
        want = []
        for p in seq:
          want.append(max(p))
          if want[-1] > bar:
            break
        found = bool(want) and want[-1] > bar
        ctx.state((tuple(want), found))
        ctx.check(res.lower_bound_divergence_estimates == want, key, 'estimates %r, should be %r' % (res.lower_bound_divergence_estimates, want))
        ctx.check(res.termination_reason == (rcfg.TerminationReason.FOUND_PRIVACY_VIOLATION if found
                                             else rcfg.TerminationReason.TRIAL_LIMIT_REACHED), key, 'reason %r' % res.termination_reason)
        ctx.check((res.found_privacy_violation is not None) == found and (
            not found or res.found_privacy_violation.failure_probability == 0.07), key, 'violation %r' % (res.found_privacy_violation,))
        ctx.check(res.num_inspected_trials == len(want), key, 'trials %r' % res.num_inspected_trials)
        ctx.check((res.mechanism_name, res.max_num_trials, res.property_tester) == ('m%d' % rep, n, cfg.property_tester)
                  and res.privacy_property == t.privacy_property, key, 'preamble')
        ctx.check(given == ([None] + want)[:len(want)] and len(given) == len(want), key, 'the generator was told %r' % (given,))
        ms = [l for l in log if l[0] == 'mechanism']
        ctx.check(sorted(m[1] for m in ms) == sorted((i + 1, j) for i in range(len(want)) for j in (1, 2))
                  and all(m[2] == 5 for m in ms), key, 'mechanism calls %r' % (ms,))
        es = [l for l in log if l[0] == 'estimate']
        for i in range(len(want)):
          two = sorted((e[1], e[2]) for e in es[2 * i:2 * i + 2])
          a, b = i + 1.1, i + 1.2
          ctx.check(len(two) == 2 and np.allclose(two, [(a, b), (b, a)]) and all(e[3] == 0.07 for e in es), key, 'estimates of %r' % (es,))
  ctx.trace()


def run_post(case, ctx):
  def make(p):
    cfg = rcfg.PrivacyTestRunnerConfig(property_tester=rcfg.PropertyTester.MMD_TESTER, max_num_trials=1, failure_probability=0.1,
                                       num_samples=4, post_processing=p)
    seen = []

    class T:
      privacy_property = FakeTester.privacy_property

      def estimate_lower_bound(self, a, b, fp):
        seen.append((np.array(a), np.array(b)))
        return 0.0

      def reject_property(self, lb):
        return False
    return cfg, T(), seen

  xs = np.array([-3.0, -0.2, 0.0, 1.7])
  cheb = [lambda t: 1 + 0 * t, lambda t: t, lambda t: 2 * t * t - 1, lambda t: 4 * t ** 3 - 3 * t,
          lambda t: 8 * t ** 4 - 8 * t * t + 1, lambda t: 16 * t ** 5 - 20 * t ** 3 + 5 * t]
  for p in rcfg.PostProcessing:
    for shape in ((4,), (4, 1)):
      cfg, t, seen = make(p)
      ptr.PrivacyTestRunner(cfg, lambda d: (xs, xs + 1), t).test_privacy(lambda d, n: np.array(d).reshape(shape), 'm')
      ctx.step()
      for got, raw in ((seen[0][0], xs), (seen[0][1], xs + 1), (seen[1][0], xs + 1), (seen[1][1], xs)):
        if p == rcfg.PostProcessing.NONE:
          want = raw.reshape(shape)
        elif p == rcfg.PostProcessing.TANH:
          want = np.tanh(raw).reshape(shape)
        else:
          want = np.stack([c(np.tanh(raw)) for c in cheb], axis=1)
        ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12), 'post %s %r' % (p.name, shape), 'samples %r, should be %r' % (got.tolist(), want.tolist()))
  cfg, t, _ = make('other')
  ctx.check(refused(ptr.PrivacyTestRunner, cfg, None, t), 'post unknown', 'accepted')
  ctx.trace()


# -- dataset generators -----------------------------------------------------

def gen_make(kind):
  if kind == 'class':
    c = dgc.ClassificationDatasetGeneratorConfig(study_name='s', study_owner='o', min_value=-2.0, max_value=3.0, search_algorithm='ALG',
                                                 metric_name='metric', sample_dim=2, num_samples=3, num_classes=4)
    return cg.ClassificationDatasetGenerator(c), 9
  dt = dgc.DataType.DATA_TYPE_INT32 if kind == 'int' else dgc.DataType.DATA_TYPE_FLOAT
  c = dgc.VizierDatasetGeneratorConfig(study_name='s', study_owner='o', num_vizier_parameters=12, data_type=dt,
                                       min_value=-2.0, max_value=3.0, search_algorithm='ALG', metric_name='metric')
  if kind == 'pipe':
    return pg.PipelineDpDatasetGenerator(c, pg.PipelineDpDatasetGeneratorConfig(max_num_privacy_ids=3, max_num_partitions=2)), 6
  return vg.VizierScalarDataAddRemoveGenerator(c), 12


def run_gen(case, ctx):
  """Histories of (what the caller reports, what vizier suggests)."""
  kind = case['kind']
  reports = [None, 0.0, -1.5, 2.0]
  suggests = ['trial', 'none', 'empty']
  for hist in itertools.product(itertools.product(reports, suggests), repeat=case['depth'] - 3):
    play(ctx, kind, list(hist))
  for hist in itertools.product([(r, 'trial') for r in reports], repeat=case['depth']):
    play(ctx, kind, list(hist))
  ctx.trace()


def params(n, i):
  """Distinct in every position and every trial."""
  return [100.0 * (i + 1) + j for j in range(n)]


def play(ctx, kind, hist):
  queue = []

  def script(study, k):
    what = queue.pop(0) if queue else 'empty'
    if what == 'empty':
      return 'empty'
    if what == 'none':
      return None
    vals = params(len(study.config.problem.search_space.root.params), len(study.trials))
    names = [p[0] for p in study.config.problem.search_space.root.params]
    # the study may list parameters in any order
    pairs = list(zip(names, vals))
    return dict(pairs[::-1] if len(study.trials) % 2 else pairs)

  aud.Study.script = staticmethod(script)
  gen, n = gen_make(kind)
  study = gen._study_client if hasattr(gen, '_study_client') else aud.Study.last
  open_trial = None  # index of the trial whose result is awaited
  done = {}
  key = 'gen %s %r' % (kind, hist)
  for rep, sug in hist:
    ctx.step()
    # the suggestion is consumed only if a new trial is needed
    if rep is not None and open_trial is not None:
      done[open_trial] = rep
      open_trial = None
    needs = open_trial is None
    queue[:] = [sug] if needs else []
    try:
      out = gen(rep)
      err = None
    except ValueError as e:
      out, err = None, e
    if needs and sug != 'trial':
      ctx.check(err is not None, key, 'no trial was suggested, and none was missed')
      ctx.state((kind, 'missed', len(done)))
    else:
      if needs:
        open_trial = len(study.trials) - 1
      if not ctx.check(err is None, key, 'refused: %s' % err):
        return
      ctx.check(pairs_equal(out, expected(kind, params(n, open_trial))), key, 'datasets %r of trial %d' % (out, open_trial))
      ctx.state((kind, 'open', len(done), rep))
    want = [[{'metric': done[i]}] if i in done else [] for i in range(len(study.trials))]
    got = [t.completions for t in study.trials]
    if not ctx.check(got == want, key, 'results reported %r, should be %r' % (got, want)):
      return
    ctx.check(all(l[1] == 1 for l in study.log if l[0] == 'suggest'), key, 'several suggestions at once')


def pairs_equal(a, b):
  if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
    return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(pairs_equal(x, y) for x, y in zip(a, b))
  return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float))


def expected(kind, p):
  if kind in ('scalar', 'int'):
    return np.array(p[:-1]), np.array(p)
  if kind == 'class':
    f, l = np.array(p[:6]).reshape(3, 2), np.array(p[6:])
    return (f, l), (f[:2], l[:2])
  # records (row, column, value); which of row and column is the privacy id is the subject of pipe-columns
  rows = [(i, j, p[2 * i + j]) for i in range(3) for j in range(2)]
  return [r for r in rows if r[0] < 2], rows


def run_gen_data(case, ctx):
  aud.Study.script = staticmethod(lambda s, k: 'empty')
  for kind in ('scalar', 'int', 'class', 'pipe'):
    gen, n = gen_make(kind)
    s = aud.Study.last
    ps = s.config.problem.search_space.root.params
    key = 'gen-config %s' % kind
    ctx.step()
    ctx.check(len(ps) == n and len({p[0] for p in ps}) == n, key, 'parameters %r' % (ps,))
    ctx.check((s.owner, s.study_id, s.config.algorithm) == ('o', 's', 'ALG'), key, 'study %r' % ((s.owner, s.study_id, s.config.algorithm),))
    mi = s.config.problem.metric_information
    ctx.check(len(mi) == 1 and mi[0].kw == {'name': 'metric', 'goal': 'max'}, key, 'metric %r' % ([m.kw for m in mi],))
    if kind == 'class':
      fl = [p for p in ps if p[1] == 'float']
      il = [p for p in ps if p[1] == 'int']
      ctx.check(len(fl) == 6 and len(il) == 3 and all(p[2:] == (-2.0, 3.0) for p in fl), key, 'features %r' % (fl,))
      ctx.check(all(p[2] == 0 and p[3] == 3 for p in il), key + ' labels', 'labels of 4 classes range over %r' % (il[0][2:],))
    elif kind == 'int':
      ctx.check(all(p[1:] == ('int', -2, 3) and isinstance(p[2], int) for p in ps), key, 'parameters %r' % (ps[0],))
    else:
      ctx.check(all(p[1:] == ('float', -2.0, 3.0) for p in ps), key, 'parameters %r' % (ps[0],))
  c = dgc.VizierDatasetGeneratorConfig(study_name='s', study_owner='o', num_vizier_parameters=2,
                                       data_type=dgc.DataType.DATA_TYPE_UNSPECIFIED, min_value=0, max_value=1, search_algorithm='A', metric_name='m')
  ctx.check(refused(vg.VizierScalarDataAddRemoveGenerator, c, kind=NotImplementedError), 'gen-config type', 'accepted')
  for pair in (([1], [1, 2]), (np.zeros(3), np.zeros(2)), ('a', 'b')):
    g = kg.ConstantDatasetGenerator(pair)
    for d in (None, 0.0, 5.0, -1.0, None):
      got = g(d)
      ctx.step()
      ctx.check(len(got) == 2 and got[0] is pair[0] and got[1] is pair[1], 'gen-constant', 'datasets %r' % (got,))
  ctx.trace()


def run_columns(case, ctx):
  """Records are (partition, privacy id, value): neighbours differ in one privacy id, and the mechanism has to see that."""
  for ids in (1, 2, 3):
    for parts in (1, 2, 3):
      c = dgc.VizierDatasetGeneratorConfig(study_name='s', study_owner='o', num_vizier_parameters=1, data_type=dgc.DataType.DATA_TYPE_FLOAT,
                                           min_value=0, max_value=1, search_algorithm='A', metric_name='m')
      g = pg.PipelineDpDatasetGenerator(c, pg.PipelineDpDatasetGeneratorConfig(max_num_privacy_ids=ids, max_num_partitions=parts))
      d1, d2 = g.get_neighboring_datasets_from_vizier_params(np.arange(float(ids * parts)))
      ctx.step()
      key = 'pipe ids=%d partitions=%d' % (ids, parts)
      ctx.check(len(d2) == ids * parts and len(set(map(tuple, d2))) == len(d2) and sorted(x[2] for x in d2) == list(map(float, range(ids * parts))),
                key, 'records %r' % (d2,))
      small = [x for x in d2 if x not in d1]
      ctx.check(len(d1) == (ids - 1) * parts and all(x in d2 for x in d1) and len(small) == parts, key, 'neighbour %r' % (d1,))
      # seen through the extractors of the mechanism
      del aud.Pipe.runs[:]
      m = aggregation.AggregationMechanism(None, pp.ApproximateDp(1.0, 0.1), [0])
      m([tuple(x) for x in d2], 1)
      m([tuple(x) for x in d1], 1)
      r2, r1 = aud.Pipe.runs[0]['rows'], aud.Pipe.runs[1]['rows']
      extra = [r for r in r2 if r not in r1]
      ctx.check(len({r[1] for r in extra}) == 1 and not {r[1] for r in extra} & {r[1] for r in r1}, 'neighbours ' + key,
                'ids=%d partitions=%d: the neighbours differ in privacy ids %r' % (ids, parts, sorted({r[1] for r in extra})))
      ctx.check(len({r[0] for r in r2}) == parts and len({r[1] for r in r2}) == ids, 'sees ' + key,
                'ids=%d partitions=%d: the mechanism sees %d ids and %d partitions' % (ids, parts, len({r[1] for r in r2}), len({r[0] for r in r2})))
  ctx.trace()


def run_aggregate(case, ctx):
  for eps, delta in ((1.0, 0.0), (0.3, 1e-6)):
    for public in (None, [1], [2, 1, 3]):
      for n in (0, 1, 3):
        for as_array in (False, True):
          data = [[1, 5, 1.0], [1, 6, 1.5], [2, 5, 3.0], [3, 7, 4.5]]
          del aud.Pipe.runs[:]
          params_ = object()
          m = aggregation.AggregationMechanism(params_, pp.ApproximateDp(eps, delta), public)
          got = m(np.array(data) if as_array else data, n)
          ctx.step()
          key = 'aggregate eps=%g delta=%g public=%r n=%d' % (eps, delta, public, n)
          ctx.check(len(aud.Pipe.runs) == n and all(r['fresh'] for r in aud.Pipe.runs), key, 'runs %d' % len(aud.Pipe.runs))
          for r in aud.Pipe.runs:
            ctx.check((r['eps'], r['delta']) == (eps, delta) and r['params'] is params_ and r['public'] == public, key, 'budget %r' % ((r['eps'], r['delta']),))
            ctx.check([(int(a), int(b), float(c)) for a, b, c in r['rows']] == [(a, b, c) for a, b, c in data], key, 'records %r' % (r['rows'],))
          parts = public if public is not None else [1, 2, 3]
          row = [x for p in parts for x in (sum(d[2] for d in data if d[0] == p), sum(d[0] == p for d in data))]
          ctx.check(np.array_equal(np.asarray(got, float).reshape(n, -1) if n else [], [row] * n if n else []), key, 'samples %r, should be %r' % (got.tolist(), row))
  ctx.trace()
