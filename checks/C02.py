"""Private clustering draws no more noise-protected releases than it pays for."""
import itertools

import numpy as np

from mc import clus

PROPERTY = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of every noise outcome of the real code on neighbouring datasets'
RULE = '''every dataset of a menu and every neighbour without one of its points, with and without given tree parameters, depths,
thresholds, numbers of clusters and noise levels; every assignment of released values to the count queries is executed on
both neighbours with the same outcomes, and the two transcripts of releases are compared; a node asked up to four times'''
ASSUMPTIONS = ['noise comes from scipy.stats.dlaplace.rvs and numpy.random.normal (existing tests mock both)',
               'the non-private clustering step is replaced by a recorder (scikit-learn is not installed)']

R = 4.0
DATA = {
    'corners': [(1, 1), (1, -1), (-1, 1), (-1, -1)],
    'planes': [(0, 0), (0, 1), (1, 0), (0, -2), (0, 0)],
    'dups': [(2, 1)] * 2 + [(-1, -1)],
    'one': [(3, -1)],
    'far': [(1, 2), (300, -400), (-2, 1), (0, -5)],
}
PLANES = [[(1, 0), (0, 1), (1, 1)], [(1, 1), (-2, 1), (-1, 0)]]


def cases(tier):
  quick = tier == 'quick'
  for d in DATA:
    for p in range(len(PLANES)):
      for depth, tb, tn in ((0, 1, 1), (1, 2, 1), (1, 2, 2)):
        for k, sigma in ((1, 0.25), (2, 1.5), (5, 3.0)):
          yield {'d': d, 'p': p, 'tree': [tb, tn, depth], 'k': k, 'sigma': sigma}
      for depth, tb, tn in ((2, 2, 1), (2, 3, 2)) + (() if quick else ((3, 2, 2),)):
        for k, sigma in ((2, 1.5),) if quick else ((1, 0.25), (2, 1.5), (5, 3.0)):
          yield {'d': d, 'p': p, 'tree': [tb, tn, depth], 'k': k, 'sigma': sigma}
      for k in (1, 2):
        for sigma in (2.0,) if quick else (0.01, 2.0, 50.0):
          yield {'d': d, 'p': p, 'tree': None, 'k': k, 'sigma': sigma}
  for d in DATA:
    yield {'d': d, 'off': True}
  for c in (-2, 0, 1, 5):
    yield {'node': c}
  for dtype in ('float32', 'int64'):
    yield {'d': 'corners', 'p': 0, 'tree': [2, 1, 1], 'k': 2, 'sigma': 1.5, 'dtype': dtype}


class Recorder(clus.Pcalc):
  made = []

  def __init__(self, privacy_param, radius, max_depth, multipliers):
    super().__init__(Recorder.sigma * radius, Recorder.a, radius)
    self.args = (privacy_param, radius, max_depth, multipliers)
    self.validated = []
    Recorder.made.append(self)

  def validate_accounting(self, privacy_param, max_depth):
    self.validated.append((privacy_param, max_depth, len(Recorder.transcript.counts)))


def cluster(pts, case, count_of, sigma, a):
  dtype = case.get('dtype', float)
  arr = np.array(pts, dtype=dtype).reshape(len(pts), 2)
  kept = arr.copy()
  planes = PLANES[case.get('p', 0)]

  def mk_planes(shape):
    v = [planes[i % 3] for i in range(shape[0])]
    return np.array(v, dtype=float).reshape(shape)
  tree = None if case.get('tree') is None else clus.CP.TreeParam(*case['tree'])
  old = clus.PC.PrivacyCalculator
  Recorder.made, Recorder.sigma, Recorder.a = [], sigma, a
  mods = [clus.PC, clus.CA, clus.DCP, clus.CO]
  put = [(m, n) for m in mods for n in list(vars(m)) if getattr(m, n) is old]
  try:
    for m, n in put:
      setattr(m, n, Recorder)
    with clus.controlled(count_of=count_of, noise_of=lambda i: 0, planes=mk_planes) as t:
      Recorder.transcript = t
      param = clus.CP.DifferentialPrivacyParam(1.0, 1e-6)
      res = clus.CA.private_lsh_clustering(case['k'], clus.CP.Data(arr, R), param, tree_param=tree)
  finally:
    for m, n in put:
      setattr(m, n, old)
  return t, res, Recorder.made, arr, kept


def clip(p):
  n = np.linalg.norm(p)
  return np.asarray(p, float) * (R / n if n > R else 1.0)


def judge(ctx, key, run, case, sigma, a):
  t, res, made, arr, kept = run
  ctx.check(arr.tolist() == kept.tolist(), key, 'data modified')
  ctx.check(len(made) == 1, key, '%d calibrations' % len(made))
  pc = made[0]
  depth = pc.args[2]
  if case.get('tree') is not None:
    ctx.check(depth == case['tree'][2], key, 'calibrated for depth %r instead of %r' % (depth, case['tree'][2]))
  ctx.check(pc.args[1] == R, key, 'calibrated for radius %r' % (pc.args[1],))
  ctx.check(len(pc.validated) >= 1 and pc.validated[0][1] == depth and pc.validated[0][2] == 0, key,
            'accounting validated %r (privacy parameters, depth, counts released before)' % (pc.validated,))
  for c in t.counts:
    ctx.check(c[0] is not None and c[1] == [a] and c[3] == c[0] + c[2][0], key, 'count release %r is not count plus one draw with parameter %r' % (c, a))
  for s in t.sums:
    ok = len(s['noise']) == 1 and s['scales'] == [sigma * R] and s['noise'][0].shape == (2,)
    ctx.check(ok, key, 'sum release %r does not carry one draw of scale %r in every coordinate' % (s, sigma * R))
    if ok:
      want = (np.sum(s['points'].astype(float), axis=0) + s['noise'][0]) / s['count']
      ctx.check(np.allclose(s['released'], want, rtol=1e-6, atol=1e-9), key, 'released average %r, expected %r' % (s['released'], want))
      ctx.check(bool(np.all(np.linalg.norm(s['points'], axis=1) <= R * (1 + 1e-6))), key, 'unclipped points are summed: %r' % s['points'])
    ctx.check(s['points'].tolist() == s['after'].tolist(), key, 'summing modified the points')
  ctx.check(t.kmeans is not None, key, 'no clustering step')
  k, pts, w = t.kmeans
  ctx.check(len(pts) == len(t.sums) and k == min(case['k'], len(pts)), key, '%d clusters of %d points asked for' % (k, len(pts)))
  rel = [tuple(clip(s['released'])) + (float(s['count']),) for s in t.sums]
  got = [tuple(p) + (float(x),) for p, x in zip(pts, w)]
  ctx.check(len(rel) == len(got) and np.allclose(sorted(rel), sorted(got), rtol=1e-6, atol=1e-9), key, 'clustered coreset %r, released %r' % (got, rel))
  ctx.check(np.array_equal(res.centers, pts[:k]), key, 'centers %r are not those of the coreset %r' % (res.centers, pts))
  # the weights are released counts (the first one raised to one)
  allowed = [max(1, t.counts[0][3])] + [c[3] for c in t.counts[1:]] if t.counts else []
  pool = list(allowed)
  for x in w:
    if x in pool:
      pool.remove(x)
    else:
      ctx.fail(key, 'weight %r is not one of the released counts %r' % (x, allowed))
  return depth


def run(case, ctx):
  if case.get('off'):
    return run_off(case, ctx)
  if 'node' in case:
    return run_node(case, ctx)
  pts, sigma, a = DATA[case['d']], case['sigma'], 0.7
  k = case['k']
  if case['tree'] is not None:
    tb, tn, depth = case['tree']
    root_menu = sorted({-3, 0, 1, tn - 1, tn, tb - 1, tb, tb + 2})
    menu = sorted({tn - 1, tn, tb - 1, tb}) if depth < 2 else sorted({tn - 1, tn, tb})
    full = 10**9
  else:
    root_menu = [-7, 0, 1, 2 * k, 5 * k, 13 * k]
    full = 3 if sigma == 2.0 else 2
    menu = [0, 1, 2, 3, 6, 18]

  def body(choose):
    def count_of(i, n):
      if i == 0:
        return choose(root_menu)
      return choose(menu) if i <= full else choose([0, 6]) if i <= full + 2 else 0
    return cluster(pts, case, count_of, sigma, a)

  first = True
  for path, r in clus.explore(body):
    key = '%s outcomes=%s' % (sorted(case.items()), path)
    t = r[0]
    ctx.step(len(t.counts) + len(t.sums))
    depth = judge(ctx, key, r, case, sigma, a)
    released = [c[3] for c in t.counts]
    ctx.state((case['d'], case.get('p'), repr(case['tree']), k, sigma, tuple(released)))
    ctx.trace({'case': case, 'released': released} if first else None)
    first = False
    if case.get('dtype'):
      continue
    for i in range(len(pts)):
      if i and pts[i] in pts[:i]:
        continue
      less = pts[:i] + pts[i + 1:]
      if not less:
        continue
      t2 = cluster(less, case, lambda j, n: released[j] if j < len(released) else 0, sigma, a)[0]
      ctx.trace()
      ctx.step(len(t2.counts) + len(t2.sums))
      key2 = key + ' without point %d' % i
      if not ctx.check([c[3] for c in t2.counts] == released and len(t2.sums) == len(t.sums), key2,
                       'releases differ in number or kind between neighbours: counts %s and %s, sums %d and %d' % (
                           released, [c[3] for c in t2.counts], len(t.sums), len(t2.sums))):
        continue
      diff = [(c[0], d[0]) for c, d in zip(t.counts, t2.counts) if c[0] != d[0]]
      ctx.check(len(diff) <= depth + 1 and all(abs(x - y) == 1 for x, y in diff), key2,
                'the point enters counts %r: paid for %d of sensitivity one' % (diff, depth + 1))
      ds = []
      for s, u in zip(t.sums, t2.sums):
        d = np.sum(s['points'], axis=0) - np.sum(u['points'], axis=0)
        ctx.check(s['count'] == u['count'], key2, 'averages divide by %r and %r' % (s['count'], u['count']))
        if np.linalg.norm(d) > 1e-9:
          ds.append(d)
      ctx.check(len(ds) <= 1 and all(np.linalg.norm(d) <= R * (1 + 1e-9) for d in ds), key2, 'sums differ by %r: paid for one of norm %g' % (ds, R))
      ctx.check(np.array_equal(t.kmeans[2], t2.kmeans[2]), key2, 'weights %r and %r although the releases are the same' % (t.kmeans[2], t2.kmeans[2]))


def run_off(case, ctx):
  """Unlimited budget: no noise at all, exact counts."""
  pts = DATA[case['d']]
  for eps, delta in ((np.inf, 1e-6), (1.0, 1.0)):
    for depth in (0, 1, 2):
      for k in (1, 3):
        def bad(*_):
          raise AssertionError('count noise drawn')
        arr = np.array(pts, dtype=float)
        with clus.controlled(count_of=bad, noise_of=bad, planes=lambda s: np.array(PLANES[0][:s[0]], dtype=float).reshape(s)) as t:
          res = clus.CA.private_lsh_clustering(k, clus.CP.Data(arr, R), clus.CP.DifferentialPrivacyParam(eps, delta), tree_param=clus.CP.TreeParam(2, 1, depth))
        key = 'no noise %s eps=%g depth=%d k=%d' % (case['d'], eps, depth, k)
        ctx.check(sum(t.kmeans[2]) == len(pts), key, 'weights %r of %d points' % (t.kmeans[2], len(pts)))
        for s in t.sums:
          want = np.sum(s['points'], axis=0) / len(s['points'])
          ctx.check(np.allclose(s['released'], want), key, 'average %r, expected %r' % (s['released'], want))
        ctx.check(res.centers.shape[0] == min(k, len(t.sums)), key, 'centers')
        ctx.step(len(t.counts) + len(t.sums))
        ctx.trace(key)
        ctx.state(key)


def run_node(case, ctx):
  """However often a node is asked, its count and its average are drawn once; a count given to it is never drawn."""
  released = case['node']
  arr = np.array(DATA['corners'], dtype=float)
  for given in (False, True):
    for calls in [c for n in (1, 2, 3, 4) for c in itertools.product('ca', repeat=n)]:
      if released < 1 and 'a' in calls:
        continue  # averages require a count of at least one
      with clus.controlled(count_of=lambda i, n: released + 10 * i, noise_of=lambda i: 0,
                           planes=lambda s: np.array(PLANES[0][:s[0]], dtype=float).reshape(s)) as t:
        param = clus.CO.CoresetParam(clus.Pcalc(1.5, 0.7, R), clus.CP.TreeParam(2, 1, 2), 'x', R)
        node = clus.lsh_tree.root_node(clus.CP.Data(arr, R), param, released if given else None)
        out = [node.get_private_count() if c == 'c' else node.get_private_average() for c in calls]
      key = 'node count=%d given=%s calls=%s' % (released, given, ''.join(calls))
      ctx.check(len(t.counts) == (0 if given else 1), key, 'count drawn %d times' % len(t.counts))
      ctx.check(len(t.sums) == (1 if 'a' in calls else 0), key, 'average drawn %d times' % len(t.sums))
      ctx.check(node.private_count == released and all(o == released for c, o in zip(calls, out) if c == 'c'), key,
                'counts %r instead of %d' % (out, released))
      avgs = [o for c, o in zip(calls, out) if c == 'a']
      ctx.check(all(np.array_equal(a, avgs[0]) for a in avgs), key, 'averages %r differ' % (avgs,))
      ctx.step(len(calls))
      ctx.trace()
      ctx.state(key)
