"""The clustering tree is a faithful partition shaped only by noisy counts."""
import itertools

import numpy as np

from mc import clus

PROPERTY = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of every noise outcome of the real code against a reference model'
RULE = '''every dataset of a menu (on and off the hyperplanes, duplicates, empty), set of hyperplanes, thresholds and depth; for
each, every assignment of released values (below, at and above each threshold) to every count query is executed and the
tree compared with a reference tree; plus hashing of every dataset at every level'''
ASSUMPTIONS = ['points of the datasets have small integer coordinates, so projections are exact',
               'count noise comes from scipy.stats.dlaplace.rvs and hyperplanes from numpy.random.normal (existing tests mock both)']

DATA = {
    'corners': [(1, 1), (1, -1), (-1, 1), (-1, -1)],
    'planes': [(0, 0), (0, 1), (1, 0), (0, -2), (-2, 0), (0, 0)],
    'dups': [(2, 1)] * 3 + [(-1, -1)] * 2,
    'one': [(3, -1)],
    'empty': [],
    'mixed': [(1, 2), (-2, 1), (2, -1), (0, 3), (-1, -1), (-1, 0), (5, 5)],
}
PLANES = [[(1, 0), (0, 1), (1, 1)], [(-1, 2), (-1, 2), (0, 0)], [(1, 1), (1, -1), (-1, 0)]]
THRESH = [(1, 1), (2, 1), (3, 1), (3, 3), (5, 2)]


def cases(tier):
  for d in DATA:
    for p in range(len(PLANES)):
      for tb, tn in THRESH:
        for depth in (0, 1, 2):
          for given in ((None, 1, tb, 0, -4) if depth < 2 else (None, tb)):
            yield {'d': d, 'p': p, 'tb': tb, 'tn': tn, 'depth': depth, 'given': given}
  for d in ('mixed', 'planes'):
    for p in range(len(PLANES)):
      for tb, tn in ((2, 2), (2, 1)) if tier == 'quick' else THRESH:
        yield {'d': d, 'p': p, 'tb': tb, 'tn': tn, 'depth': 3, 'given': tb, 'few': True}
  yield {'hash': True}


def side(point, plane):
  return '0' if sum(a * b for a, b in zip(point, plane)) >= 0 else '1'


def run_hash(ctx):
  for name, pts in DATA.items():
    arr = np.array(pts, dtype=float).reshape(len(pts), 2)
    for planes in PLANES:
      for n in (1, 2, 3):
        for prefix in [''.join(p) for m in range(n + 2) for p in itertools.product('01', repeat=m)]:
          h = clus.lsh.SimHash(2, n, np.array(planes[:n], dtype=float))
          mine = [p for p in pts if all(side(p, planes[i]) == prefix[i] for i in range(min(n, len(prefix))))]
          a = np.array(mine, dtype=float).reshape(len(mine), 2)
          key = 'hash %s planes=%s prefix=%s of %d' % (name, planes, prefix, n)
          ctx.step()
          try:
            g = h.group_by_next_hash(a, prefix)
          except ValueError:
            ctx.check(len(prefix) >= n, key, 'refused although there is a next character')
            continue
          if not ctx.check(len(prefix) < n, key, 'accepted although there is no next character'):
            continue
          want = {c: sorted(tuple(map(float, p)) for p in mine if side(p, planes[len(prefix)]) == c) for c in '01'}
          ctx.check({c: clus.key_of(v) for c, v in g.items()} == want, key, 'groups %r, expected %r' % (g, want))
          ctx.check(a.tolist() == np.array(mine, dtype=float).reshape(len(mine), 2).tolist(), key, 'input modified')
    ctx.state(name)
  for dim in (1, 2, 5):
    for n in (0, 1, 4):
      with clus.controlled(planes=lambda s: np.arange(np.prod(s)).reshape(s)) as t:
        h = clus.lsh.SimHash(dim, n)
      ctx.check(len(t.planes) == 1 and t.planes[0][0] == (n, dim) and h.projection_vectors.shape == (n, dim), 'planes %d %d' % (dim, n), 'projection vectors drawn %r' % t.planes)
  ctx.trace()


def run(case, ctx):
  if 'hash' in case:
    return run_hash(ctx)
  pts = DATA[case['d']]
  arr = np.array(pts, dtype=float).reshape(len(pts), 2)
  planes, tb, tn, depth = PLANES[case['p']], case['tb'], case['tn'], case['depth']
  menu = sorted(set([tn, tb, tb + 2] if case.get('few') else [tn - 2, tn - 1, tn, tb - 1, tb, tb + 3])) if not case.get('few') else [tn - 1, tn, tb] if tb != tn else [tn - 1, tb]

  def body(choose):
    kept = arr.copy()
    data = clus.CP.Data(kept, 10.0)
    param = clus.CO.CoresetParam(clus.Pcalc(1.0, 0.5, 10.0), clus.CP.TreeParam(tb, tn, depth), 'x', 10.0)
    with clus.controlled(count_of=lambda i, n: choose(menu), planes=lambda s: np.array(planes[:s[0]]).reshape(s)) as t:
      root = clus.lsh_tree.root_node(data, param, case['given'])
      err = None
      try:
        tree = clus.lsh_tree.LshTree(root)
      except ValueError as e:
        tree, err = None, e
    return root, tree, err, t, kept

  first = True
  for path, (root, tree, err, t, kept) in clus.explore(body):
    key = '%s outcomes=%s' % (sorted(case.items(), key=str), path)
    ctx.step(len(t.counts))
    ctx.trace({'case': case, 'outcomes': path, 'tree': repr(tree.tree) if tree else repr(err)} if first else None)
    first = False
    ctx.state((case['d'], case['p'], tb, tn, depth, case['given'], tuple(c[3] for c in t.counts)))
    ctx.check(kept.tolist() == arr.tolist(), key, 'data modified')
    ctx.check(all(c[0] is None or c[3] == c[0] + sum(c[2]) for c in t.counts), key, 'released counts are not count plus noise')
    n_counts = 0 if case['given'] is not None else 1
    ctx.check(clus.key_of(root.nonprivate_points) == clus.key_of(arr) and root.hash_prefix == '', key, 'root does not hold the data')
    if case['given'] is not None:
      ctx.check(root.private_count == case['given'], key, 'given root count replaced by %r' % root.private_count)
    elif t.counts:
      ctx.check(root.private_count == t.counts[0][3], key, 'root count %r, released %r' % (root.private_count, t.counts[0][3]))
    if err is not None or root.private_count < 1:
      ctx.check(err is not None and root.private_count < 1, key, 'root count %r: %r' % (root.private_count, err))
      continue
    # reference tree: which nodes must exist, with which points
    level = [root]
    expect_leaves = []
    l = 0
    fine = True
    while True:
      got = tree.tree.get(l)
      if l > 0 and not level:
        ctx.check(got is None, key, 'level %d has nodes %r, none expected' % (l, got))
        break
      names = sorted(n.hash_prefix for n in got or [])
      want_names = sorted(n if isinstance(n, str) else n.hash_prefix for n in level)
      fine = l == 0 or names is not None
      nxt = []
      for n in got or []:
        mine = [p for p in pts if all(side(p, planes[i]) == c for i, c in enumerate(n.hash_prefix))]
        ctx.check(len(n.hash_prefix) == l and clus.key_of(n.nonprivate_points) == sorted(tuple(map(float, p)) for p in mine), key,
                  'node %r holds %r, expected %r' % (n.hash_prefix, n.nonprivate_points.tolist(), mine))
        if l > 0:
          ctx.check(n.private_count >= tn, key, 'node %r kept with count %r < %r' % (n.hash_prefix, n.private_count, tn))
        branch = n.private_count >= tb and l < depth
        if branch:
          n_counts += 2
          nxt += [n.hash_prefix + '0', n.hash_prefix + '1']
        kids = [c.hash_prefix for c in tree.tree.get(l + 1, []) if c.hash_prefix[:-1] == n.hash_prefix]
        ctx.check(branch or not kids, key, 'node %r with count %r was expanded' % (n.hash_prefix, n.private_count))
        if not kids:
          expect_leaves.append(n.hash_prefix)
      ctx.check(len(set(names)) == len(names), key, 'nodes repeated: %s' % names)
      if l > 0:
        ctx.check(set(names) <= set(level), key, 'level %d has %s, possible %s' % (l, names, level))
      # every candidate that is missing must have been released below the node threshold
      level = nxt
      l += 1
      if l > depth + 2:
        ctx.fail(key, 'tree deeper than %d' % depth)
        break
    ctx.check(len(t.counts) == n_counts, key, '%d counts released, %d expected' % (len(t.counts), n_counts))
    # counts are drawn level by level, so the multiset of kept counts is determined
    released = sorted(c[3] for c in t.counts[0 if case['given'] is not None else 1:])
    kept_counts = sorted(n.private_count for k, v in tree.tree.items() if k > 0 for n in v)
    ctx.check(kept_counts == [c for c in released if c >= tn], key, 'kept counts %s, released %s with threshold %d' % (kept_counts, released, tn))
    ctx.check(sorted(n.hash_prefix for n in tree.leaves) == sorted(expect_leaves), key, 'leaves %s, expected %s' % (tree.leaves, expect_leaves))
    nodes = {id(n) for v in tree.tree.values() for n in v}
    ctx.check(all(id(n) in nodes for n in tree.leaves), key, 'leaves that are not nodes')
    # points of different leaves are disjoint occurrences of the data
    rest = clus.key_of(arr)
    for n in tree.leaves:
      for p in clus.key_of(n.nonprivate_points):
        if p in rest:
          rest.remove(p)
        else:
          ctx.fail(key, 'point %r is in more leaves than it occurs' % (p,))
