"""Points outside the radius cannot influence clustering beyond the radius."""
import itertools
import math

import numpy as np

from mc import clus

PROPERTY = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small point sets on the real code against exact rational clipping'
RULE = '''every list of up to three points (none included) over a coordinate menu of zero, boundary, inside, outside, huge and tiny values, in
dimensions 1 to 3, times radii and element types; every noise outcome of a small clustering run for the released coreset'''
ASSUMPTIONS = ['finite coordinates of magnitude at most 1e150 (squares do not overflow)', 'positive radius of at least 1e-100']

RADII = (1.0, 0.3, 5.0, 1e-6, 1e12)


def coords(r, dim, tier):
  base = [0.0, r, -r, r / 2, -r * (1 + 2**-52), r * 3, -1e150, 1e-150]
  if dim == 3:
    base = [0.0, r, -r * 3, r / 2, 1e150]
  if tier != 'quick':
    base += [r * (1 - 2**-53), 1e7 * r] if dim < 3 else [1e-150, -r]
  return base


def cases(tier):
  for r in RADII:
    for dim in (1, 2, 3):
      for n in (0, 1, 2, 3):
        if n == 3 and dim > 1:
          continue
        if n == 2 and dim == 3:
          continue
        yield {'k': 'clip', 'r': r, 'dim': dim, 'n': n, 'tier': tier}
  for dt in ('float32', 'int64', 'int8', 'bool'):
    yield {'k': 'dtype', 'dt': dt}
  for n in (1, 2, 3):
    yield {'k': 'pipe', 'n': n}
  for d in (1, 2):
    for depth in (0, 1, 2):
      yield {'k': 'core', 'dim': d, 'depth': depth}


def norm(p):
  """Exact enough norm without overflow."""
  m = max((abs(x) for x in p), default=0.0)
  if m == 0:
    return 0.0
  return m * math.sqrt(math.fsum((x / m) ** 2 for x in p))


def judge(ctx, key, before, after, r, eps=1e-12):
  ctx.check(after.shape == before.shape, key, 'shape %r became %r' % (before.shape, after.shape))
  for p, q in zip(before.tolist(), after.tolist()):
    n = norm([float(x) for x in p])
    m = norm(q)
    ctx.check(m <= r * (1 + eps), key, 'point %r becomes %r of norm %r > %r' % (p, q, m, r))
    if n <= r * (1 - eps):
      ctx.check([float(x) for x in p] == q, key, 'point %r within the radius becomes %r' % (p, q))
    elif n > r * (1 + eps):
      want = [float(x) / n * r for x in p]
      ctx.check(all(abs(a - b) <= max(1e-9, eps) * r for a, b in zip(want, q)), key, 'point %r becomes %r instead of %r' % (p, q, want))
    else:
      ctx.check(all(abs(float(a) - b) <= 10 * eps * r for a, b in zip(p, q)), key, 'point %r on the boundary becomes %r' % (p, q))


def clip_both(ctx, key, arr, r, eps=1e-12):
  kept = arr.copy()
  data = clus.CP.Data(arr, r)
  ctx.check(data.num_points == arr.shape[0] and data.dim == arr.shape[1], key, 'size %r' % ((data.num_points, data.dim),))
  a = data.clip_by_radius()
  other = clus.CP.Data(np.ones((2, arr.shape[1])), r)
  b = other.clip_by_radius(arr)
  for x in (a, b):
    judge(ctx, key, kept, np.asarray(x), r, eps)
    ctx.step()
  ctx.check(arr.tolist() == kept.tolist() and arr.dtype == kept.dtype, key, 'input modified')
  a += 1  # the result does not alias the data
  ctx.check(data.datapoints.tolist() == kept.tolist(), key, 'result shares memory with the data')


def run(case, ctx):
  if case['k'] == 'core':
    return run_core(case, ctx)
  if case['k'] == 'pipe':
    return run_pipe(case, ctx)
  if case['k'] == 'dtype':
    vals = {'float32': (0, 1.5, -3.0, 0.25), 'int64': (0, 2, -3, 7), 'int8': (0, 100, -128, 3), 'bool': (False, True)}[case['dt']]
    for dim in (1, 2):
      for pts in itertools.chain([()], itertools.product(itertools.product(vals, repeat=dim), repeat=2)):
        for r in (1.0, 2.0, 0.5):
          arr = np.array(pts, dtype=case['dt']).reshape(len(pts), dim)
          key = '%s r=%g %r' % (case['dt'], r, pts)
          kept = arr.copy()
          out = clus.CP.Data(arr, r).clip_by_radius()
          judge(ctx, key, kept, np.asarray(out, dtype=float), r, 1e-6)
          ctx.check(arr.tolist() == kept.tolist(), key, 'input modified')
          ctx.step()
      ctx.trace(repr((case['dt'], dim)))
      ctx.state((case['dt'], dim))
    return
  r, dim, n = case['r'], case['dim'], case['n']
  menu = list(itertools.product(coords(r, dim, case['tier']), repeat=dim))
  for pts in itertools.product(menu, repeat=n):
    key = 'r=%g %r' % (r, pts)
    clip_both(ctx, key, np.array(pts, dtype=float).reshape(n, dim), r)
    ctx.trace(key if len(ctx.states) < 3 else None)
    ctx.state(key)


def run_pipe(case, ctx):
  """The whole clustering: what is counted and summed are the clipped points, whatever the points are."""
  from checks import C02
  r = C02.R
  menu = PIPE if case['n'] < 3 else PIPE[::2]
  for pts in itertools.combinations_with_replacement(menu, case['n']):
    pts = [(x * r, y * r) for x, y in pts]
    inside = [tuple(C02.clip(p)) for p in pts]
    for tree in ([1, 1, 0], [2, 1, 1], None):
      conf = {'k': 2, 'tree': tree, 'p': 1}
      runs = []
      for points in (pts, inside):
        runs.append(C02.cluster(points, conf, lambda i, n: n + [2, 0, 1][i % 3] if i < 12 else 0, 0.5, 0.7)[0])
      t, u = runs
      key = 'pipeline %r tree=%r' % (pts, tree)
      for s in t.sums:
        for p in s['points'].tolist():
          ctx.check(norm(p) <= r * (1 + 1e-9), key, 'sum contains %r' % (p,))
          ctx.check(any(np.allclose(p, q, rtol=1e-9, atol=1e-12) for q in inside), key, 'sum contains %r, not a clipped point' % (p,))
      if tree == [1, 1, 0]:
        got = sorted(tuple(p) for s in t.sums for p in s['points'].tolist())
        ctx.check(len(got) == len(inside) and np.allclose(got, sorted(inside), rtol=1e-9), key, 'sums contain %r instead of %r' % (got, sorted(inside)))
      for p in t.kmeans[1].tolist():
        ctx.check(norm(p) <= r * (1 + 1e-9), key, 'released %r outside radius %g' % (p, r))
      ctx.check([c[3] for c in t.counts] == [c[3] for c in u.counts] and len(t.sums) == len(u.sums) and
                np.allclose(t.kmeans[1], u.kmeans[1], rtol=1e-6, atol=1e-9), key, 'releases differ from those of the clipped points')
      ctx.step(2)
      ctx.trace(key if len(ctx.states) < 2 else None)
      ctx.state(key)


# points as multiples of the radius
PIPE = [(0.9, 0.9), (-5, 0), (0.5, -0.25), (0.25, -0.99), (-0.8, -0.8), (1e6, -2e6), (1, 0), (0, 0), (0, -1.5), (-0.9, 0.6)]


def run_core(case, ctx):
  """The coreset released lies within the radius and sums only clipped points, for every noise outcome."""
  dim, depth = case['dim'], case['depth']
  r = 2.0
  sets = [[(0.0,) * dim], [(1e9,) * dim, (-1.0,) * dim], [(3.0,) + (0.0,) * (dim - 1), (-1e100,) * dim, (0.5,) * dim]]
  for pts in sets:
    for sigma in (0.0, 1.0, 1e6):
      def body(choose):
        with clus.controlled(count_of=lambda i, n: choose([-1, 0, 1, 3]), noise_of=lambda i: 0,
                             planes=lambda s: np.array([1.0 if (i + j) % 2 else -0.5 for i in range(s[0]) for j in range(s[1])]).reshape(s)) as t:
          arr = np.array(pts)
          tree = clus.CP.TreeParam(1, 1, depth)
          pc = clus.Pcalc(sigma, 0.5, r)
          data = clus.CP.Data(arr, r)
          clipped = clus.CP.Data(data.clip_by_radius(), r)
          cs = clus.CA.get_private_coreset(clipped, clus.CO.CoresetParam(pc, tree, 'x', r), None)
        return t, cs
      for path, (t, cs) in clus.explore(body):
        key = 'coreset dim=%d depth=%d sigma=%g %r outcomes=%r' % (dim, depth, sigma, pts, path)
        for p in cs.datapoints:
          ctx.check(norm(p.tolist()) <= r * (1 + 1e-9), key, 'released %r outside radius %g' % (p, r))
        for s in t.sums:
          for p in s['points'].tolist():
            ctx.check(norm(p) <= r * (1 + 1e-9), key, 'sum contains %r' % (p,))
        ctx.check(len(cs.datapoints) == len(t.sums), key, 'released %d points of %d averages' % (len(cs.datapoints), len(t.sums)))
        ctx.step(len(t.counts) + len(t.sums))
        ctx.trace(key if len(ctx.states) < 2 else None)
        ctx.state(key)
