"""Default tree parameters are valid for every noisy count."""
import math

import numpy as np

from mc import clus

PROPERTY = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of noise outcomes on the real code'
RULE = '''every released count of a range around zero and a menu of large ones of both signs, times true counts, numbers of clusters,
dimensions, noise levels, radii and depths'''
ASSUMPTIONS = ['finite noise level']


def cases(tier):
  for k in (1, 2, 3, 7, 100):
    for dim in (1, 2, 5, 100):
      yield {'k': k, 'dim': dim, 'tier': tier}
  yield {'tree': True}


def run(case, ctx):
  if case.get('tree'):
    return run_tree(ctx)
  k, dim = case['k'], case['dim']
  span = 60 if case['tier'] == 'quick' else 400
  counts = sorted(set(range(-span, span)) | {s * (10**j + d) for s in (1, -1) for j in (3, 5, 9, 12) for d in (-1, 0, 1)} | {2 * k * m + d for m in (1, 2, 10, 31, 99) for d in (-1, 0, 1)})
  for n in (0, 1, 5):
    data = clus.CP.Data(np.zeros((n, dim)), 1.0)
    for sigma, radius in ((0.0, 1.0), (0.05, 1.0), (0.1, 2.0), (1.0, 1.0), (3.0, 0.5), (77.0, 1e3), (1e6, 1.0)):
      for depth in (0, 20):
        pc = clus.Pcalc(sigma, 0.4, radius)
        for c in counts:
          key = 'k=%d dim=%d n=%d sigma=%g radius=%g depth=%d count=%d' % (k, dim, n, sigma, radius, depth, c)
          with clus.controlled(count_of=lambda i, x: c, noise_of=lambda i: 0) as t:
            tree, got = clus.DCP.default_tree_param(k, data, pc, depth)
          judge(ctx, key, k, dim, sigma / radius, depth, c, n, tree, got, t)
        # no noise: the exact count, no draw
        pc = clus.Pcalc(sigma, math.inf, radius)
        with clus.controlled() as t:
          tree, got = clus.DCP.default_tree_param(k, data, pc, depth)
        judge(ctx, 'k=%d dim=%d n=%d sigma=%g radius=%g depth=%d exact' % (k, dim, n, sigma, radius, depth), k, dim, sigma / radius, depth, n, n, tree, got, t, draws=0)


def judge(ctx, key, k, dim, ratio, depth, c, n, tree, got, t, draws=1):
  ctx.step()
  ctx.trace(key if ctx.traces < 2 else None)
  ctx.state(key)
  node, br = tree.min_num_points_in_node, tree.min_num_points_in_branching_node
  ctx.check(got == c and len(t.counts) == 1 and t.counts[0][0] == n and len(t.counts[0][1]) == draws and t.counts[0][3] == c, key,
            'count %r returned, releases %r' % (got, t.counts))
  ctx.check(tree.max_depth == depth, key, 'depth %r' % tree.max_depth)
  a, b = c / (2 * k), 10 * math.sqrt(dim) * ratio
  ctx.check(isinstance(node, (int, np.integer)) and node >= 1, key, 'node threshold %r' % (node,))
  ctx.check(node <= max(1, a + 1e-9) and node <= max(1, b * (1 + 1e-9)), key, 'node threshold %r, count suggests %r and noise %r' % (node, a, b))
  ctx.check(node >= min(a, b * (1 - 1e-9)) - 1, key, 'node threshold %r far below what count (%r) and noise (%r) suggest' % (node, a, b))
  ctx.check(br == 3 * node, key, 'branching threshold %r for node threshold %r' % (br, node))


def run_tree(ctx):
  """Tree parameters refuse exactly what their documentation excludes."""
  for tb in range(-3, 6):
    for tn in range(-3, 6):
      for depth in (0, 1, 7):
        try:
          clus.CP.TreeParam(tb, tn, depth)
          ok = True
        except ValueError:
          ok = False
        key = 'TreeParam(%d, %d, %d)' % (tb, tn, depth)
        ctx.check(ok == (tn >= 1 and tb >= tn), key, 'accepted' if ok else 'refused')
        ctx.step()
        ctx.trace()
        ctx.state(key)
