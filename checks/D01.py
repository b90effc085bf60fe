"""The auditor's testers: what they report is a lower bound, and the one they document."""
import itertools
import math

import numpy as np

from mc import aud

aud.install()

from dp_auditorium.configs import privacy_property as pp
from dp_auditorium.configs import property_tester_config as ptc
from dp_auditorium.testers import histogram_tester as ht
from dp_auditorium.testers import hockey_stick_tester as hst
from dp_auditorium.testers import mmd_tester as mt
from dp_auditorium.testers import property_tester_utils as ptu
from dp_auditorium.testers import renyi_tester as rt

PROPERTY = 'D01'
LEVEL = 'model_checking'
RULE = '''all sample arrays over universes of two and three outputs up to the length bound, for every tester, privacy parameter,
failure probability and kernel / classifier / model of a grid; and, for pairs of output laws at, inside and outside the
tested guarantee, every reachable count of outcomes with its exact probability'''
ASSUMPTIONS = ['tensorflow is replaced by exact models over a finite set of outputs',
               'bounds agree with the documented ones to relative 1e-9',
               'soundness is decided for laws on two outputs',
               'hockey-stick: test halves of at least 2 / log(1/failure probability) samples (below that the rounding of the '
               'class sizes to whole samples outweighs the tolerance)']

EPS = [0.1, 0.7, 1.5]
BETA = [0.01, 0.05, 0.3, 0.9]


def close(a, b):
  a, b = float(a), float(b)
  if math.isnan(a) or math.isnan(b):
    return math.isnan(a) and math.isnan(b)
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def hockey(p, q, eps):
  return sum(max(0.0, x - math.exp(eps) * y) for x, y in zip(p, q))


def laws():
  """Pairs of laws on two outputs (three for a few)."""
  g = [0.0, 0.02, 0.2, 0.5, 0.9, 1.0]
  return [((1 - a, a), (1 - b, b)) for a in g for b in g]


def cases(tier):
  t = tier == 'thorough'
  yield {'k': 'util'}
  yield {'k': 'config'}
  for orig in (False, True):
    for disc in (False, True):
      yield {'k': 'hist', 'orig': orig, 'disc': disc, 'n': 5 if t else 4}
  for orig in (False, True):
    for eps in EPS:
      yield {'k': 'hist-sound', 'orig': orig, 'eps': eps, 'n': [3000, 12000] if t else [3000]}
  for kern in ('RBF', 'LAPLACIAN'):
    for bw in (0.1, 1.0, 8.0):
      for eps in EPS:
        yield {'k': 'mmd', 'kern': kern, 'bw': bw, 'eps': eps, 'n': 7 if t else 5}
        yield {'k': 'mmd-sound', 'kern': kern, 'bw': bw, 'eps': eps, 'n': [12, 20] if t else [10]}
  for eps in EPS + [2.5]:
    yield {'k': 'hs', 'eps': eps, 'n': 6 if t else 5}
    for n in [(20, 20), (21, 21), (8, 40), (40, 8), (4, 4), (5, 5), (9, 12)] + ([(60, 60), (10, 100)] if t else []):
      yield {'k': 'hs-sound', 'eps': eps, 'n': n}
  for alpha in (1.25, 2.0, 6.0):
    for c in (0.3, 1.0):
      yield {'k': 'renyi', 'alpha': alpha, 'c': c, 'n': 6 if t else 5}
      yield {'k': 'renyi-sound', 'alpha': alpha, 'c': c, 'n': [15, 40] if t else [12]}


def run(case, ctx):
  {'util': run_util, 'config': run_config, 'hist': run_hist, 'hist-sound': run_hist_sound, 'mmd': run_mmd,
   'mmd-sound': run_mmd_sound, 'hs': run_hs, 'hs-sound': run_hs_sound, 'renyi': run_renyi,
   'renyi-sound': run_renyi_sound}[case['k']](case, ctx)


def refused(f, *a, **k):
  try:
    f(*a, **k)
  except ValueError:
    return True
  return False


# -- helpers and configuration ----------------------------------------------

def training(**kw):
  d = dict(training_epochs=3, batch_size=7, optimizer_learning_rate=0.02, model_output_coordinate_bound=1.0, verbose=0)
  d.update(kw)
  return ptc.TrainingConfig(**d)


def run_util(case, ctx):
  for n in range(0, 12):
    for shape in ((n,), (n, 1), (n, 2)):
      x = np.arange(int(np.prod(shape))).reshape(shape)
      ctx.step()
      key = 'split %s' % (shape,)
      if n < 2:
        ctx.check(refused(ptu.split_train_test_samples, x), key, 'fewer than two samples are not refused')
        continue
      a, b = ptu.split_train_test_samples(x)
      ctx.check(len(a) == n // 2 and len(b) == n - n // 2, key, 'halves of %d and %d' % (len(a), len(b)))
      ctx.check(np.array_equal(np.concatenate([a, b]), x), key, 'the halves are not the sample')
  vals = [None, -1.0, -1e-9, 0, 0.0, 1e-9, 0.5, 1, 3.0, 100.0]
  for e in vals:
    ok = e is not None and e > 0
    ctx.check(refused(ptu.validate_pure_dp_property, pp.PureDp(epsilon=e)) != ok, 'pure %r' % e, 'epsilon accepted: %r' % (not ok))
    for d in vals:
      good = ok and d is not None and d >= 0
      ctx.check(refused(ptu.validate_approximate_dp_property, pp.ApproximateDp(epsilon=e, delta=d)) != good,
                'approx %r %r' % (e, d), 'should be %s' % ('accepted' if good else 'refused'))
    for al in vals + [1 + 1e-9, 1.5]:
      good = ok and al is not None and al > 1
      ctx.check(refused(ptu.validate_renyi_dp_property, pp.RenyiDp(epsilon=e, alpha=al)) != good,
                'renyi %r %r' % (e, al), 'should be %s' % ('accepted' if good else 'refused'))
  small = [None, -1, 0, 1e-6, 2]
  for ep, bs, lr, mb in itertools.product(small, repeat=4):
    good = all(v is not None and v > 0 for v in (ep, bs, lr, mb))
    ctx.step()
    ctx.check(refused(ptu.validate_training_config, training(training_epochs=ep, batch_size=bs, optimizer_learning_rate=lr,
                                                             model_output_coordinate_bound=mb)) != good,
              'training %r' % ((ep, bs, lr, mb),), 'should be %s' % ('accepted' if good else 'refused'))
  for mask in itertools.product((False, True), repeat=3):
    kw = {}
    if mask[0]:
      kw['pure_dp'] = pp.PureDp(1.0)
    if mask[1]:
      kw['renyi_dp'] = pp.RenyiDp(2.0, 1.0)
    if mask[2]:
      kw['approximate_dp'] = pp.ApproximateDp(1.0, 0.1)
    ctx.check(refused(pp.PrivacyProperty, **kw) != (sum(mask) == 1), 'property %r' % (mask,), 'exactly one must be set')
  ctx.trace()


def run_config(case, ctx):
  """What each tester is built for is what it says it tests and what it rejects."""
  for e, d in itertools.product([-0.1, 0.0, None, 0.1, 1.0, 3.0], [None, -0.1, 0.0, 1e-6, 0.3]):
    good = e is not None and e > 0 and d is not None and d >= 0
    prop = pp.ApproximateDp(epsilon=e, delta=d)
    makers = [
        lambda: ht.HistogramTester(ptc.HistogramPropertyTesterConfig(True, 3, 0.0, 1.0, prop)),
        lambda: ht.HistogramTester(ptc.HistogramPropertyTesterConfig(False, 3, 0.0, 1.0, prop, True)),
        lambda: mt.MMDPropertyTester(ptc.MMDPropertyTesterConfig(ptc.Kernel.KERNEL_RBF, 1.0, prop)),
        lambda: mt.MMDPropertyTester(ptc.MMDPropertyTesterConfig(ptc.Kernel.KERNEL_LAPLACIAN, 1.0, prop)),
        lambda: hst.HockeyStickPropertyTester(ptc.HockeyStickPropertyTesterConfig(training(), prop), aud.TableClassifier()),
        lambda: hst.HockeyStickPropertyTester(ptc.HockeyStickPropertyTesterConfig(
            training(model_output_coordinate_bound=None), prop), aud.TableClassifier()),
    ]
    for i, mk in enumerate(makers):
      key = 'config %d eps=%r delta=%r' % (i, e, d)
      ctx.step()
      if not good:
        ctx.check(refused(mk), key, 'bad parameters accepted')
        continue
      t = mk()
      got = t.privacy_property
      ctx.check(got.approximate_dp is not None and (got.approximate_dp.epsilon, got.approximate_dp.delta) == (e, d)
                and got.pure_dp is None and got.renyi_dp is None, key, 'says it tests %r' % (got,))
      for lb in (-1.0, d - 1e-9, d + 1e-9, d + 1.0):
        ctx.check(bool(t.reject_property(lb)) == (lb > d), key + ' lb=%r' % lb, 'rejects: %r' % t.reject_property(lb))
      ctx.check(not t.reject_property(float('nan')), key, 'rejects on a bound that is not a number')
  ctx.check(refused(mt.MMDPropertyTester, ptc.MMDPropertyTesterConfig(ptc.Kernel.KERNEL_UNSPECIFIED, 1.0, pp.ApproximateDp(1.0, 0.0))),
            'kernel', 'unspecified kernel accepted')
  for field in ('training_epochs', 'batch_size', 'optimizer_learning_rate'):
    for bad in (None, 0, -1):
      prop = pp.ApproximateDp(1.0, 0.0)
      ctx.check(refused(hst.HockeyStickPropertyTester, ptc.HockeyStickPropertyTesterConfig(training(**{field: bad}), prop),
                        aud.TableClassifier()), 'hs %s=%r' % (field, bad), 'bad training accepted')
      ctx.check(refused(rt.RenyiPropertyTester, ptc.RenyiPropertyTesterConfig(
          2.0, training(**{field: bad}), pp.PrivacyProperty(pure_dp=pp.PureDp(1.0))), aud.TableModel({})),
                'renyi %s=%r' % (field, bad), 'bad training accepted')
  for e, al, cal in itertools.product([-0.1, 0.0, 0.05, 0.4, 1.0, 3.0], [None, 0.5, 1.0, 1.5, 8.0], [1.5, 8.0]):
    cfg = ptc.RenyiPropertyTesterConfig(cal, training(), pp.PrivacyProperty(renyi_dp=pp.RenyiDp(alpha=al, epsilon=e)))
    good = e > 0 and al is not None and al > 1 and al == cal
    key = 'renyi-config eps=%r alpha=%r config.alpha=%r' % (e, al, cal)
    ctx.step()
    if not good:
      ctx.check(refused(rt.RenyiPropertyTester, cfg, aud.TableModel({})), key, 'accepted')
    else:
      t = rt.RenyiPropertyTester(cfg, aud.TableModel({}))
      ctx.check(t.privacy_property == cfg.privacy_property, key, 'says it tests %r' % (t.privacy_property,))
      for lb in (e - 1e-9, e + 1e-9):
        ctx.check(bool(t.reject_property(lb)) == (lb > e), key + ' lb=%r' % lb, 'rejects: %r' % t.reject_property(lb))
  for e, cal in itertools.product([-0.1, 0.0, None, 0.05, 0.3, 1.0, 3.0], [1.5, 8.0]):
    cfg = ptc.RenyiPropertyTesterConfig(cal, training(), pp.PrivacyProperty(pure_dp=pp.PureDp(epsilon=e)))
    key = 'renyi-pure eps=%r alpha=%r' % (e, cal)
    if e is None or e <= 0:
      ctx.check(refused(rt.RenyiPropertyTester, cfg, aud.TableModel({})), key, 'accepted')
      continue
    t = rt.RenyiPropertyTester(cfg, aud.TableModel({}))
    ctx.check(t.privacy_property == cfg.privacy_property, key, 'says it tests %r' % (t.privacy_property,))
    # every eps-DP mechanism has Renyi divergence at most min(eps, alpha eps^2 / 2): none may be rejected
    for lb in (min(e, cal * e * e / 2) - 1e-9, min(e, 2 * cal * e * e) - 1e-9):
      ctx.check(not t.reject_property(lb), key + ' lb=%r' % lb, 'rejects a divergence pure DP allows')
    ctx.check(t.reject_property(e + 1e-9), key, 'accepts a divergence above epsilon')
  ctx.check(refused(rt.RenyiPropertyTester, ptc.RenyiPropertyTesterConfig(
      2.0, training(), pp.PrivacyProperty(approximate_dp=pp.ApproximateDp(1.0, 0.1))), aud.TableModel({})),
            'renyi approx', 'approximate DP accepted')
  ctx.trace()


# -- histogram --------------------------------------------------------------

def hist_ref(c1, c2, eps, beta, k, orig):
  """c1, c2: counts (arrays on the last axis are allowed)."""
  n1, n2 = sum(c1), sum(c2)
  n = np.minimum(n1, n2)
  e = math.exp(eps)
  p = [c / n1 for c in c1]
  q = [c / n2 for c in c2]
  est = sum(np.maximum(0.0, a - e * b) for a, b in zip(p, q))
  if orig:
    t1 = 2 * (1 + e) * np.sqrt(k / n)
  else:
    t1 = 2 / np.sqrt(n) * sum(np.sqrt(a) for a in p) + 2 * e / np.sqrt(n) * sum(np.sqrt(b) for b in q)
  return est - t1 - 6 * (1 + e) * np.sqrt(math.log(4 / beta) / (2 * n))


def hist_tester(disc, k, lo, hi, eps, delta, orig):
  return ht.HistogramTester(ptc.HistogramPropertyTesterConfig(disc, k, lo, hi, pp.ApproximateDp(eps, delta), orig))


def run_hist(case, ctx):
  disc, orig, nmax = case['disc'], case['orig'], case['n']
  for k in (1, 2, 3):
    if disc:
      vals = list(range(k))
      bin_of = {v: v for v in vals}
      lo, hi = 0.0, 1.0
    else:
      lo, hi = -1.0, 2.0
      w = (hi - lo) / k
      vals = [-7.0, -1.0, -1.0 + w / 2, -1.0 + w, 2.0, 9.5] if k < 3 else [-7.0, 0.0, 1.0, 1.5, 2.0]
      bin_of = {v: min(k - 1, max(0, int((min(hi, max(lo, v)) - lo) / w))) for v in vals}
    ms = [m for n in range(1, (nmax if len(vals) <= 3 else 3) + 1) for m in itertools.combinations_with_replacement(vals, n)]
    for eps in EPS:
      t = hist_tester(disc, k, lo, hi, eps, 0.1, orig)
      for a in ms:
        for b in ms:
          beta = BETA[(len(a) + 2 * len(b)) % 4]
          c1 = [sum(bin_of[v] == i for v in a) for i in range(k)]
          c2 = [sum(bin_of[v] == i for v in b) for i in range(k)]
          want = hist_ref(c1, c2, eps, beta, k, orig)
          key = 'hist disc=%s orig=%s k=%d eps=%g beta=%g %r %r' % (disc, orig, k, eps, beta, a, b)
          ctx.step()
          got = t.estimate_lower_bound(np.array(a[::-1]), np.array(b), beta)
          ctx.state((k, eps, tuple(c1), tuple(c2)))
          ctx.check(close(got, want), key, 'bound %r, should be %r' % (float(got), float(want)))
    t = hist_tester(disc, k, lo, hi, 1.0, 0.1, orig)
    good = np.array(vals[:1] * 3)
    bads = [np.array([], dtype=int)]
    if disc:
      bads += [np.array(x) for x in ([k], [-1], [0, k, 0], [0, 0, -1], [k + 5])]
    for bad in bads:
      for pair in ((good, bad), (bad, good)):
        ctx.check(refused(t.estimate_lower_bound, pair[0], pair[1], 0.1), 'hist k=%d disc=%s bad %r' % (k, disc, bad.tolist()),
                  'samples that are no outputs are accepted')
  ctx.trace()


def binom_pmf(n, p):
  from scipy import stats
  return stats.binom.pmf(np.arange(n + 1), n, p)


def run_hist_sound(case, ctx):
  eps, orig = case['eps'], case['orig']
  for n in case['n']:
    i = np.arange(n + 1)
    c1 = [(n - i)[:, None], i[:, None]]
    c2 = [(n - i)[None, :], i[None, :]]
    for beta in BETA:
      lb = hist_ref(c1, c2, eps, beta, 2, orig)
      ctx.count('count pairs', lb.size)
      # the real tester at corners and around every sign change of a coarse ladder
      t = hist_tester(True, 2, 0.0, 1.0, eps, 0.0, orig)
      for a in (0, n // 3, n):
        for b in (0, n // 2, n):
          ctx.step()
          got = t.estimate_lower_bound(np.repeat([0, 1], [n - a, a]), np.repeat([0, 1], [n - b, b]), beta)
          ctx.check(close(got, lb[a, b]), 'hist n=%d %d %d eps=%g orig=%s' % (n, a, b, eps, orig),
                    'bound %r, should be %r' % (float(got), float(lb[a, b])))
      for p, q in laws():
        true = hockey(p, q, eps)
        pr = float(binom_pmf(n, p[1]) @ (lb > true) @ binom_pmf(n, q[1]))
        key = 'hist-sound n=%d eps=%g beta=%g orig=%s p=%r q=%r' % (n, eps, beta, orig, p[1], q[1])
        ctx.ev(key, pr > 0)
        if pr > 0:
          ctx.count('laws where the bound can be wrong')
        ctx.check(pr <= beta + 1e-12, key, 'bound above the true %g with probability %g' % (true, pr))
      # a mechanism that shows everything is found out
      ctx.check(lb[n, 0] == lb.max() or eps > 0, 'power', 'never')
  ctx.trace()


# -- MMD --------------------------------------------------------------------

def kernel(kern, bw, x, y):
  x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
  d = math.sqrt(((x - y) ** 2).sum()) ** 2 if kern == 'RBF' else np.abs(x - y).sum()
  return math.exp(-bw * d)


def mmd_bound(hs, eps, beta):
  n = len(hs)
  m = sum(hs) / n
  v = max(0.0, sum(h * h for h in hs) / n - m * m)
  tol = [math.sqrt(8 * math.log(1 / beta) / n)]
  if n > 1:
    tol.append(math.sqrt(2 * v * math.log(2 / beta) / n) + 28 * math.log(2 / beta) / (3 * (n - 1)))
  else:
    tol.append(math.inf)
  a, b, c = math.exp(eps) - math.exp(-eps), 1 + math.exp(-eps), math.exp(eps) - 1
  # largest delta >= -a/b with b delta^2 + 2 a delta + c^2 <= m - tol
  return max((math.sqrt(max(0.0, a * a + b * (m - x - c * c))) - a) / b for x in tol)


def mmd_tester(kern, bw, eps, delta=0.0):
  return mt.MMDPropertyTester(ptc.MMDPropertyTesterConfig(getattr(ptc.Kernel, 'KERNEL_' + kern), bw, pp.ApproximateDp(eps, delta)))


def mmd_hs(kern, bw, s1, s2):
  k = lambda x, y: kernel(kern, bw, x, y)
  a, b = s1[:len(s1) // 2], s1[len(s1) // 2:]
  c, d = s2[:len(s2) // 2], s2[len(s2) // 2:]
  return [k(xa, xb) - 2 * k(xa, ya) + k(ya, yb) for xa, xb, ya, yb in zip(a, b, c, d)]


def run_mmd(case, ctx):
  kern, bw, eps = case['kern'], case['bw'], case['eps']
  t = mmd_tester(kern, bw, eps)
  nmax = case['n']

  def one(s1, s2, beta):
    hs = mmd_hs(kern, bw, s1, s2)
    want = mmd_bound(hs, eps, beta)
    ctx.step()
    got = t.estimate_lower_bound(np.array(s1), np.array(s2), beta)
    ctx.state(tuple(round(h, 9) for h in hs))
    # cancellation below the root: 1e-7 at worst
    ctx.check(abs(float(got) - want) <= 1e-7 * max(1, abs(want)), 'mmd %s bw=%g eps=%g beta=%g %r %r' % (kern, bw, eps, beta, s1, s2),
              'bound %r, should be %r' % (float(got), want))

  for n1 in range(2, nmax + 1):
    for n2 in range(2, nmax + 1):
      if n1 + n2 > 2 * nmax - 1 and n1 != n2:
        continue
      if n1 + n2 > 9:
        continue
      for s1 in itertools.product((0, 1), repeat=n1):
        for s2 in itertools.product((0, 1), repeat=n2):
          one(s1, s2, BETA[(sum(s1) + n2) % 4])
  for s1 in itertools.product((-0.5, 0.0, 2.0), repeat=4):
    for s2 in itertools.product((-0.5, 0.0, 2.0), repeat=4):
      if s1 <= s2:
        one(s1, s2, 0.3)
  pts = [(0.0, 0.0), (1.0, 0.0), (1.0, -2.0)]
  for s1 in itertools.product(pts, repeat=2):
    for s2 in itertools.product(pts, repeat=2):
      one(s1, s2, 0.05)
      one(s1 * 4, s2 * 4, 0.05)
  for s in ((), (1,)):
    ctx.check(refused(t.estimate_lower_bound, np.array(s), np.array([0, 1]), 0.1), 'mmd short %r' % (s,), 'too few samples accepted')
    ctx.check(refused(t.estimate_lower_bound, np.array([0, 1]), np.array(s), 0.1), 'mmd short %r' % (s,), 'too few samples accepted')
  ctx.trace()


def run_mmd_sound(case, ctx):
  kern, bw, eps = case['kern'], case['bw'], case['eps']
  kv = kernel(kern, bw, 0, 1)
  quads = list(itertools.product((0, 1), repeat=4))  # xa xb ya yb
  h = {}
  for xa, xb, ya, yb in quads:
    h[(xa, xb, ya, yb)] = (1.0 if xa == xb else kv) - 2 * (1.0 if xa == ya else kv) + (1.0 if ya == yb else kv)
  classes = sorted({round(v, 12) for v in h.values()})
  rep = {c: next(q for q in quads if round(h[q], 12) == c) for c in classes}
  t = mmd_tester(kern, bw, eps)
  for n in case['n']:
    comps = list(compositions(n, len(classes)))
    for beta in BETA:
      lbs = []
      for comp in comps:
        qs = [rep[c] for c, m in zip(classes, comp) for _ in range(m)]
        s1 = [q[0] for q in qs] + [q[1] for q in qs]
        s2 = [q[2] for q in qs] + [q[3] for q in qs]
        ctx.step()
        lbs.append(float(t.estimate_lower_bound(np.array(s1), np.array(s2), beta)))
      lbs = np.array(lbs)
      coef = np.array([math.factorial(n) / math.prod(math.factorial(m) for m in comp) for comp in comps])
      cm = np.array(comps)
      for p, q in laws():
        pr_c = [sum(p[a] * p[b] * q[c] * q[d] for a, b, c, d in quads if round(h[(a, b, c, d)], 12) == cl) for cl in classes]
        w = coef * np.prod(np.power(np.array(pr_c)[None, :], cm), axis=1)
        true = max(hockey(p, q, eps), hockey(q, p, eps))
        pr = float(w[lbs > true + 1e-9].sum())
        key = 'mmd-sound %s bw=%g eps=%g beta=%g n=%d p=%r q=%r' % (kern, bw, eps, beta, n, p[1], q[1])
        ctx.ev(key, pr > 0)
        ctx.check(abs(w.sum() - 1) < 1e-9, key, 'weights')
        if pr > 0:
          ctx.count('laws where the bound can be wrong')
        ctx.check(pr <= beta + 1e-12, key, 'bound above the true %g with probability %g' % (true, pr))
  ctx.trace()


def compositions(n, k):
  if k == 1:
    yield (n,)
    return
  for i in range(n + 1):
    for rest in compositions(n - i, k - 1):
      yield (i,) + rest


# -- hockey stick -----------------------------------------------------------

def hs_tester(eps, model, delta=0.1, batch=13):
  return hst.HockeyStickPropertyTester(
      ptc.HockeyStickPropertyTesterConfig(training(model_output_coordinate_bound=5.0), pp.ApproximateDp(eps, delta), batch), model)


def hs_used(s1, s2, eps):
  """The rows of each sample that make up a weighted sample of the common size."""
  f = 1 / (1 + math.exp(eps))
  n = min(len(s1), len(s2))
  return s1[:int(f * n)], s2[int(f * n):n]


def hs_ref(s1, s2, eps, beta, prior):
  tr1, te1 = s1[:len(s1) // 2], s1[len(s1) // 2:]
  tr2, te2 = s2[:len(s2) // 2], s2[len(s2) // 2:]
  u1, u2 = hs_used(tr1, tr2, eps)
  score = {}
  for x in u1:
    score[x] = score.get(x, 0) - 1
  for x in u2:
    score[x] = score.get(x, 0) + 1
  tot = len(u1) + len(u2)
  score = {k: v / tot for k, v in score.items()}
  v1, v2 = hs_used(te1, te2, eps)
  ok = sum(not score.get(x, prior) > 0 for x in v1) + sum(score.get(x, prior) > 0 for x in v2)
  acc = ok / (len(v1) + len(v2))
  acc -= math.sqrt(math.log(1 / beta) / (2 * min(len(te1), len(te2))))
  return acc * (1 + math.exp(eps)) - math.exp(eps)


def run_hs(case, ctx):
  eps = case['eps']

  def one(s1, s2, beta, prior, extra=None):
    base = aud.TableClassifier(prior)
    t = hs_tester(eps, base)
    a, b = np.array(s1), np.array(s2)
    if extra == 'col':
      a, b = a.reshape(-1, 1), b.reshape(-1, 1)
    want = hs_ref(s1, s2, eps, beta, prior)
    key = 'hs eps=%g beta=%g prior=%g %r %r' % (eps, beta, prior, s1, s2)
    ctx.step()
    got = t.estimate_lower_bound(a, b, beta)
    ctx.state((s1, s2))
    ctx.check(close(got, want), key, 'bound %r, should be %r' % (float(got), want))
    again = t.estimate_lower_bound(a, b, beta)
    ctx.check(close(again, got), key, 'the second estimate from the same samples is %r, the first %r' % (again, got))
    ctx.check(not base.fits and not base.table, key, 'the base model was trained')

  for n in range(2, case['n'] + 1):
    for s1 in itertools.product((0, 1), repeat=n):
      for s2 in itertools.product((0, 1), repeat=n):
        one(s1, s2, BETA[(sum(s1) + n) % 4], 0.3 if sum(s2) % 2 else -0.3)
  for s1 in itertools.product((0, 1, 2), repeat=4):
    for s2 in itertools.product((0, 1, 2), repeat=4):
      if sum(s1) % 3 == 0:
        one(s1, s2, 0.05, 0.3, 'col')
  # the training options reach the training
  base = aud.TableClassifier()
  t = hs_tester(eps, base)
  t.estimate_lower_bound(np.array([0, 1] * 20), np.array([1, 0] * 20), 0.1)
  made = [c for c in base.clones if c.fits]
  ctx.check(len(made) == 1 and len(made[0].fits) == 1, 'hs training', 'trained %d models' % len(made))
  kw = made[0].fits[0][1]
  ctx.check(kw.get('epochs') == 3 and kw.get('batch_size') == 7, 'hs training', 'options %r' % (kw,))
  ctx.check(made[0].compiled['optimizer'].get(0, 'learning_rate') == 0.02, 'hs training', 'learning rate')
  ctx.check(made[0].compiled['loss'].kw.get('from_logits') is True, 'hs training', 'the model returns logits')
  for a, b in (((4,), (4, 1)), ((4, 2), (4,)), ((4, 2), (4, 2, 1))):
    ctx.check(refused(hs_tester(eps, aud.TableClassifier()).estimate_lower_bound, np.zeros(a), np.zeros(b), 0.1),
              'hs ranks %r %r' % (a, b), 'samples of different ranks accepted')
  for s in ((), (1,)):
    ctx.check(refused(hs_tester(eps, aud.TableClassifier()).estimate_lower_bound, np.array(s), np.array([0, 1, 0, 1]), 0.1),
              'hs short %r' % (s,), 'too few samples accepted')
  ctx.trace()


def run_hs_sound(case, ctx):
  """n: sizes of the test halves; the classifier is fixed beforehand, which is all the bound may rely on."""
  eps = case['eps']
  n1, n2 = case['n']
  for forced in ({(0,): 1.0, (1,): -1.0}, {(0,): -1.0, (1,): 1.0}, {(0,): 1.0, (1,): 1.0}, {(0,): -1.0, (1,): -1.0}):
    t = hs_tester(eps, aud.TableClassifier(forced=forced))
    for beta in BETA:
      if min(n1, n2) * math.log(1 / beta) < 2:
        continue
      # every count of ones in every prefix/suffix that could matter: a sample is (ones in the first part, ones in the rest)
      cut = [int(min(n1, n2) / (1 + math.exp(eps))), int(n1 / (1 + math.exp(eps))), int(n2 / (1 + math.exp(eps)))]
      lb = {}

      def bound(s1, s2):
        k = (tuple(s1), tuple(s2))
        if k not in lb:
          ctx.step()
          lb[k] = float(t.estimate_lower_bound(np.concatenate([np.zeros(n1, int), s1]),
                                               np.concatenate([np.zeros(n2, int), s2]), beta))
        return lb[k]

      b1 = sorted({0, n1} | {c for c in cut if c <= n1} | {min(n1, n2)})
      b2 = sorted({0, n2} | {c for c in cut if c <= n2} | {min(n1, n2)})
      # which parts of each sample matter at all (found on the real code)
      parts1 = relevant(lambda s: bound(s, np.zeros(n2, int)), lambda s: bound(s, np.ones(n2, int)), n1, b1)
      parts2 = relevant(lambda s: bound(np.zeros(n1, int), s), lambda s: bound(np.ones(n1, int), s), n2, b2)
      rows1, rows2 = list(fill(n1, parts1)), list(fill(n2, parts2))
      table = np.array([[bound(s1, s2) for _, s2 in rows2] for _, s1 in rows1])
      for p, q in laws():
        true = hockey(q, p, eps)  # the tester measures how far the second exceeds the first
        true = max(true, hockey(p, q, eps))
        w1 = np.array([weight(c, parts1, p[1]) for c, _ in rows1])
        w2 = np.array([weight(c, parts2, q[1]) for c, _ in rows2])
        pr = float(w1 @ (table > true + 1e-9) @ w2)
        key = 'hs-sound eps=%g n=%r beta=%g model=%r p=%r q=%r' % (eps, (n1, n2), beta, sorted(forced.values()), p[1], q[1])
        ctx.ev(key, pr > 0)
        if pr > 0:
          ctx.count('laws where the bound can be wrong')
        ctx.check(pr <= beta + 1e-12, key, 'bound above the true %g with probability %g' % (true, pr))
  ctx.trace()


def relevant(f0, f1, n, cuts):
  """[(start, end)] of the blocks between cuts whose content changes the answer."""
  out = []
  for a, b in zip(cuts, cuts[1:]):
    z = np.zeros(n, int)
    o = z.copy()
    o[a:b] = 1
    if f0(z) != f0(o) or f1(z) != f1(o):
      out.append((a, b))
  return out


def fill(n, parts):
  for counts in itertools.product(*[range(b - a + 1) for a, b in parts]):
    s = np.zeros(n, int)
    for (a, b), c in zip(parts, counts):
      s[a:a + c] = 1
    yield counts, s


def weight(counts, parts, p):
  w = 1.0
  for (a, b), c in zip(parts, counts):
    w *= math.comb(b - a, c) * p ** c * (1 - p) ** (b - a - c)
  return w


# -- Renyi ------------------------------------------------------------------

class Layer:
  """A layer with weights: assign() is recorded."""

  def __init__(self, log, with_bias=True):
    self.kernel = Var('kernel', log)
    self.kernel_initializer = lambda shape: 'fresh'
    if with_bias:
      self.bias = Var('bias', log)
      self.bias_initializer = lambda shape: 'fresh'

  def get(self, i, name):
    return lambda v: v


class Var:

  def __init__(self, name, log):
    self.name, self.log = name, log
    self.shape = (2, 2)

  def assign(self, v):
    self.log.append(('assign', self.name, v))

  def __array__(self, dtype=None):
    return np.zeros((2, 2))


def renyi_tester(alpha, c, table, layers=(), pure=False):
  m = aud.TableModel(table)
  m.layers += list(layers)
  prop = pp.PrivacyProperty(pure_dp=pp.PureDp(0.5)) if pure else pp.PrivacyProperty(renyi_dp=pp.RenyiDp(alpha, 0.5))
  return rt.RenyiPropertyTester(ptc.RenyiPropertyTesterConfig(alpha, training(model_output_coordinate_bound=c), prop), m)


def renyi_div(g1, g2, alpha):
  t1 = sum(math.exp((alpha - 1) * g) for g in g1) / len(g1)
  t2 = sum(math.exp(alpha * g) for g in g2) / len(g2)
  return alpha / (alpha - 1) * math.log(t1) - math.log(t2)


def renyi_err(n, beta, c, alpha):
  g = max(math.sqrt(3 * math.log(2 / beta) * math.exp(2 * (alpha - 1) * c) / n),
          math.sqrt(2 * math.log(2 / beta) * math.exp(2 * alpha * c) / n))
  if g > 1:
    return math.nan
  return math.inf if g == 1 else math.log((1 + g) / (1 - g))


TABLES = [{(0,): -9.0, (1,): 9.0}, {(0,): 0.4, (1,): -0.2}, {(0,): 0.0, (1,): 9.0}]


def run_renyi(case, ctx):
  alpha, c = case['alpha'], case['c']
  for ti, table in enumerate(TABLES):
    for pure in (False, True):
      t = renyi_tester(alpha, c, table, pure=pure)
      g = {k[0]: c * math.tanh(v) for k, v in table.items()}
      for n1 in range(2, case['n'] + 1):
        for n2 in range(2, case['n'] + 1):
          if n1 + n2 > 8 and n1 != n2:
            continue
          for s1 in itertools.product((0, 1), repeat=n1):
            for s2 in itertools.product((0, 1), repeat=n2):
              if pure and sum(s1) != sum(s2):
                continue
              beta = BETA[(n1 + sum(s2)) % 4]
              te1, te2 = s1[n1 // 2:], s2[n2 // 2:]
              # enough of them that the bound exists
              k = 40 if (sum(s1) + n2) % 3 == 0 else 4000
              if k == 4000 and (n1 + n2 > 7 or ti == 2 and n1 != n2):
                continue
              ctx.step()
              got = t._compute_divergence_on_samples(t._renyi_model, np.repeat(te1, k), np.repeat(te2, k), beta) if k else None
              want = renyi_div([g[x] for x in te1], [g[x] for x in te2], alpha) - renyi_err(
                  k * min(len(te1), len(te2)), beta, c, alpha)
              key = 'renyi alpha=%g c=%g table=%d beta=%g k=%d %r %r' % (alpha, c, ti, beta, k, s1, s2)
              ctx.ev(key, not math.isnan(want))
              ctx.state((ti, te1, te2, beta))
              ctx.check(close(got, want), key, 'bound %r, should be %r' % (float(got), want))
  # the whole estimate: halves, training options, fresh weights before each training
  log = []
  t = renyi_tester(alpha, c, {(float(i),): math.sin(i) for i in range(60)}, [Layer(log), Layer(log, False)])
  for rep in range(2):
    for n1, n2 in ((40, 60), (41, 41), (60, 2)):
      s1, s2 = np.arange(n1, dtype=float), np.arange(n2, dtype=float)[::-1].copy()
      del log[:]
      t._renyi_model.fits = []
      ctx.step()
      fit = t._renyi_model.fit
      t._renyi_model.fit = lambda *a, **k: (log.append(('fit',)), fit(*a, **k))
      got = t.estimate_lower_bound(s1, s2, 0.2)
      t._renyi_model.fit = fit
      key = 'renyi-estimate alpha=%g c=%g %d %d' % (alpha, c, n1, n2)
      (args, kw), = t._renyi_model.fits
      x, y = (list(args) + [kw.get('x'), kw.get('y')])[:2] if len(args) < 2 else args[:2]
      ctx.check(np.array_equal(x, s1[:n1 // 2]) and np.array_equal(y, s2[:n2 // 2]), key, 'trained on the wrong samples')
      ctx.check(kw.get('epochs') == 3 and kw.get('batch_size') == 7, key, 'training options %r' % (kw,))
      ctx.check(log[-1] == ('fit',) and sorted(l[1] for l in log[:-1]) == ['bias', 'kernel', 'kernel']
                and all(l[2] == 'fresh' for l in log[:-1]), key, 'weights not reset before training: %r' % (log,))
      te1, te2 = s1[n1 // 2:], s2[n2 // 2:]
      want = renyi_div([c * math.tanh(math.sin(v)) for v in te1], [c * math.tanh(math.sin(v)) for v in te2], alpha) - renyi_err(
          min(len(te1), len(te2)), 0.2, c, alpha)
      ctx.check(close(got, want), key, 'bound %r, should be %r' % (float(got), want))
  # a training step ascends the divergence
  m = t._renyi_model
  d = (np.array([1.0, 2.0]), np.array([3.0, 4.0, 5.0]))
  m.optimizer.applied = None
  out = m.train_step(d)
  want = renyi_div([c * math.tanh(math.sin(v)) for v in d[0]], [c * math.tanh(math.sin(v)) for v in d[1]], alpha)
  ctx.check(close(out['divergence'], want), 'renyi-train', 'divergence %r, should be %r' % (out, want))
  ap = m.optimizer.applied or []
  ctx.check(len(ap) == 2 and all(close(gr[1], -want) and gr[2] == v for gr, v in ap), 'renyi-train',
            'gradients applied: %r' % (ap,))
  for s in ((), (1.0,)):
    ctx.check(refused(t.estimate_lower_bound, np.array(s), np.arange(4.0), 0.1), 'renyi short %r' % (s,), 'too few samples accepted')
  ctx.trace()


def run_renyi_sound(case, ctx):
  alpha, c = case['alpha'], case['c']
  for table in TABLES:
    t = renyi_tester(alpha, c, table)
    g = {k[0]: c * math.tanh(v) for k, v in table.items()}
    for n in case['n']:
      for size in (n, 50 * n):
        for beta in BETA:
          i = np.arange(size + 1)
          t1 = (i * math.exp((alpha - 1) * g[1]) + (size - i) * math.exp((alpha - 1) * g[0])) / size
          t2 = (i * math.exp(alpha * g[1]) + (size - i) * math.exp(alpha * g[0])) / size
          want = (alpha / (alpha - 1) * np.log(t1))[:, None] - np.log(t2)[None, :] - renyi_err(size, beta, c, alpha)
          # the real code on every pair of counts (of a ladder, when there are many)
          pick = range(size + 1) if size == n else sorted({0, 1, 2, size // 3, size // 2, size - 1, size})
          lb = want
          if size == n:
            lb = np.empty_like(want)
          for a in pick:
            for b in pick:
              ctx.step()
              got = float(t._compute_divergence_on_samples(
                  t._renyi_model, np.repeat([0, 1], [size - a, a]), np.repeat([0, 1], [size - b, b]), beta))
              ctx.check(close(got, want[a, b]), 'renyi alpha=%g c=%g n=%d beta=%g %d %d' % (alpha, c, size, beta, a, b),
                        'bound %r, should be %r' % (got, want[a, b]))
              if size == n:
                lb[a, b] = got
          up = np.where(np.isnan(lb), -np.inf, lb)
          for p, q in laws():
            if any(y == 0 < x for x, y in zip(p, q)):
              continue
            true = math.log(sum(x ** alpha * y ** (1 - alpha) for x, y in zip(p, q) if x > 0)) / (alpha - 1)
            pr = float(binom_pmf(size, p[1]) @ (up > true + 1e-9) @ binom_pmf(size, q[1]))
            key = 'renyi-sound alpha=%g c=%g n=%d beta=%g table=%r p=%r q=%r' % (alpha, c, size, beta, sorted(g.values()), p[1], q[1])
            ctx.ev(key, pr > 0)
            if pr > 0:
              ctx.count('laws where the bound can be wrong')
            ctx.check(pr <= beta + 1e-12, key, 'bound above the true %g with probability %g' % (true, pr))
  ctx.trace()
