"""Cluster labels, loss and quality metrics equal their definitions."""
import itertools

import numpy as np

from mc import clus

PROPERTY = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small placements and labellings on the real code against direct enumeration of points and pairs'
RULE = '''every placement of up to three points and three centers on small grids in one and two dimensions; every pair of cluster and true
labellings of up to five points over three labels; every combination of consistent and inconsistent labels, loss, centers'''
ASSUMPTIONS = ['fractions of an empty set of pairs are undefined and not judged', 'some data']


def cases(tier):
  th = tier != 'quick'
  for nc in (1, 2, 3):
    for cs in itertools.combinations_with_replacement(range(4), 1):
      for np_ in (1, 2, 3):
        yield {'k': 'near1', 'nc': nc, 'np': np_, 'c0': cs[0]}
  for c0 in range(9):
    for nc in (1, 2, 3):
      yield {'k': 'near2', 'nc': nc, 'c0': c0}
  for n in (1, 2, 3, 4, 5) + ((6,) if th else ()):
    for first in itertools.product(range(3), repeat=min(n, 2)):
      yield {'k': 'met', 'n': n, 'first': first}
  for rows in (1, 2, 3):
    for cols in (1, 2, 3):
      yield {'k': 'hist', 'rows': rows, 'cols': cols}
  yield {'k': 'err'}


def judge(ctx, key, pts, cents, res):
  pts, cents = [tuple(map(float, p)) for p in pts], [tuple(map(float, c)) for c in cents]
  d = [[sum((a - b) ** 2 for a, b in zip(p, c)) for c in cents] for p in pts]
  ctx.check(len(res.labels) == len(pts), key, '%d labels' % len(res.labels))
  for i, l in enumerate(res.labels):
    ctx.check(d[i][int(l)] <= min(d[i]) * (1 + 1e-12), key, 'point %r is labelled %r, distances %r' % (pts[i], l, d[i]))
  want = sum(map(min, d))
  ctx.check(abs(res.loss - want) <= 1e-12 * max(1.0, want), key, 'loss %r, definition gives %r' % (res.loss, want))


def near(pts, cents, dt=float):
  return clus.CA.ClusteringResult(clus.CP.Data(np.array(pts, dtype=dt), 10.0), np.array(cents, dtype=float))


def metrics_by_pairs(a, b):
  n = len(a)
  tp = tn = fp = fm = 0
  for i in range(n):
    for j in range(i):
      if b[i] == b[j]:
        tp += 1
        tn += a[i] != a[j]
      else:
        fp += 1
        fm += a[i] == a[j]
  dom = sum(max(sum(1 for x, y in zip(a, b) if x == c and y == t) for t in set(b)) for c in set(a))
  return n, dom, tp, tn, fp, fm


def judge_metrics(ctx, key, m, a, b):
  n, dom, tp, tn, fp, fm = metrics_by_pairs(a, b)
  got = (m.num_points, m.dominant_label_correct_count, m.true_pairs, m.true_nonmatch_count, m.false_pairs, m.false_match_count)
  ctx.check(tuple(map(float, got)) == tuple(map(float, (n, dom, tp, tn, fp, fm))), key,
            '(points, dominant, true pairs, true nonmatches, false pairs, false matches) = %r, enumeration gives %r' % (got, (n, dom, tp, tn, fp, fm)))
  ctx.check(abs(m.dominant_label_accuracy - dom / n) < 1e-12, key, 'accuracy %r' % m.dominant_label_accuracy)
  if tp:
    ctx.check(abs(m.true_nonmatch_frac - tn / tp) < 1e-12, key, 'true nonmatch fraction %r' % m.true_nonmatch_frac)
  if fp:
    ctx.check(abs(m.false_match_frac - fm / fp) < 1e-12, key, 'false match fraction %r' % m.false_match_frac)


def run(case, ctx):
  k = case['k']
  if k == 'near1':
    grid = (-2, 0, 1, 3.5)
    for cents in itertools.product(grid, repeat=case['nc']):
      if cents[0] != grid[case['c0']]:
        continue
      for pts in itertools.product((-3, -2, -0.5, 0.5, 1, 2.25, 100), repeat=case['np']):
        key = 'points %r centers %r' % (pts, cents)
        judge(ctx, key, [(p,) for p in pts], [(c,) for c in cents], near([(p,) for p in pts], [(c,) for c in cents]))
        ctx.step()
        ctx.trace(key if ctx.traces < 2 else None)
        ctx.state(key)
  elif k == 'near2':
    grid = list(itertools.product((-1, 0, 2), repeat=2))
    for cents in itertools.product(grid, repeat=case['nc']):
      if cents[0] != grid[case['c0']]:
        continue
      for pts in ([(0, 0), (1, 1)], [(-1, 2), (0.5, -0.5), (2, 0)], [(1, 0)], [(5, 5), (-7, 1), (0, 1), (0, 1)]):
        for dt in (float, np.float32, int):
          key = 'points %r centers %r %s' % (pts, cents, dt.__name__)
          judge(ctx, key, np.array(pts, dtype=dt).tolist(), cents, near(pts, cents, dt))
          ctx.step()
        ctx.trace(key if ctx.traces < 2 else None)
        ctx.state(key)
  elif k == 'met':
    n, first = case['n'], tuple(case['first'])
    for a in itertools.product(range(3), repeat=n):
      if a[:len(first)] != first:
        continue
      for b in itertools.product(range(3), repeat=n):
        key = 'clusters %r labels %r' % (a, b)
        data = clus.CP.Data(np.arange(2.0 * n).reshape(n, 2), 10.0, np.array(b))
        res = clus.CA.ClusteringResult(data, np.zeros((3, 2)), np.array(a), 1.0)
        h = res.cross_label_histogram()
        ok = h.shape[0] > max(a) and h.shape[1] > max(b)
        ctx.check(ok and all(h[i][j] == sum(1 for x, y in zip(a, b) if (x, y) == (i, j)) for i in range(h.shape[0]) for j in range(h.shape[1])),
                  key, 'histogram %r' % h.tolist())
        judge_metrics(ctx, key, res.get_clustering_metrics(), a, b)
        ctx.step(2)
        ctx.trace(key if ctx.traces < 2 else None)
        ctx.state((a, b))
  elif k == 'hist':
    r, c = case['rows'], case['cols']
    menu = (0, 1, 2, 5) if r * c <= 6 else (0, 1, 3)
    for cells in itertools.product(menu, repeat=r * c):
      if not sum(cells):
        continue
      h = np.array(cells).reshape(r, c)
      a, b = [], []
      for i in range(r):
        for j in range(c):
          a += [i] * h[i, j]
          b += [j] * h[i, j]
      key = 'histogram %r' % h.tolist()
      kept = h.copy()
      if r * c > 4:
        judge_counts(ctx, key, clus.CA.ClusteringMetrics(h), kept)
      else:
        judge_metrics(ctx, key, clus.CA.ClusteringMetrics(h), a, b)
      ctx.check(np.array_equal(h, kept), key, 'histogram modified')
      ctx.step()
      ctx.trace(key if ctx.traces < 2 else None)
      ctx.state(key)
    for scale in (10**3, 10**6):  # counts whose squares are large
      h = (np.arange(r * c).reshape(r, c) % 3 + 1) * scale + 7
      judge_counts(ctx, 'histogram %r' % h.tolist(), clus.CA.ClusteringMetrics(h), h)
      ctx.step()
      ctx.trace()
  else:
    run_err(ctx)


def judge_counts(ctx, key, m, h):
  """Pair counts from cell counts in exact integers."""
  r, c = h.shape
  cells = [[int(x) for x in row] for row in h]
  n = sum(map(sum, cells))
  pairs = lambda x: x * (x - 1) // 2
  cols = [sum(row[j] for row in cells) for j in range(c)]
  rows = [sum(row) for row in cells]
  same = sum(pairs(x) for row in cells for x in row)
  tp, fp = sum(map(pairs, cols)), pairs(n) - sum(map(pairs, cols))
  want = (n, sum(map(max, cells)), tp, tp - same, fp, sum(map(pairs, rows)) - same)
  got = (m.num_points, m.dominant_label_correct_count, m.true_pairs, m.true_nonmatch_count, m.false_pairs, m.false_match_count)
  ctx.check(tuple(map(float, got)) == tuple(map(float, want)), key, 'metrics %r, exact %r' % (got, want))
  ctx.check(abs(m.dominant_label_accuracy - want[1] / n) < 1e-12, key, 'accuracy')
  if tp:
    ctx.check(abs(m.true_nonmatch_frac - want[3] / tp) < 1e-12, key, 'true nonmatch fraction %r' % m.true_nonmatch_frac)
  if fp:
    ctx.check(abs(m.false_match_frac - want[5] / fp) < 1e-12, key, 'false match fraction %r' % m.false_match_frac)


def run_err(ctx):
  for n in (1, 2, 3):
    for dim in (1, 2):
      pts = np.arange(float(n * dim)).reshape(n, dim)
      for k in (1, 2):
        for cd in (1, 2, 3):
          for labels in [None] + [list(l) for m in (0, 1, 2, 3) for l in itertools.product((-1, 0, 1, 2), repeat=m)]:
            for loss in (None, 1.5, 0.0):
              key = 'n=%d dim=%d centers %dx%d labels=%r loss=%r' % (n, dim, k, cd, labels, loss)
              bad = (labels is None) != (loss is None) or cd != dim
              if labels is not None:
                bad = bad or len(labels) != n or any(l not in range(k) for l in labels)
              if labels is None and loss is None and cd != dim and 1 in (cd, dim):
                pass  # broadcasting would hide the mismatch: it must be refused all the same
              try:
                r = clus.CA.ClusteringResult(clus.CP.Data(pts, 9.0), np.zeros((k, cd)), None if labels is None else np.array(labels, dtype=int), loss)
                ok = True
              except ValueError:
                ok = False
              ctx.check(ok != bad, key, 'accepted' if ok else 'refused')
              if ok and labels is not None:
                ctx.check(r.labels.tolist() == labels and r.loss == loss, key, 'given labels and loss replaced')
              ctx.step()
              ctx.trace()
              ctx.state(key)
      for m in range(5):
        try:
          clus.CP.Data(pts, 9.0, np.zeros(m))
          ok = True
        except ValueError:
          ok = False
        ctx.check(ok == (m == n), 'data of %d points with %d labels' % (n, m), 'accepted' if ok else 'refused')
        ctx.step()
      try:
        clus.CA.ClusteringResult(clus.CP.Data(pts, 9.0), np.zeros((1, dim))).get_clustering_metrics()
        ctx.fail('metrics without labels', 'accepted')
      except ValueError:
        pass
