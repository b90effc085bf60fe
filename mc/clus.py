"""Clustering under full control of its randomness: every outcome of the noise is a branch of an exhaustive exploration."""
import contextlib
import sys
import types

import numpy as np
from scipy import stats

if 'sklearn' not in sys.modules:  # not installed here; the checks provide the clustering step
  _sk = types.ModuleType('sklearn')
  _sk.cluster = types.ModuleType('sklearn.cluster')
  sys.modules['sklearn'] = _sk
  sys.modules['sklearn.cluster'] = _sk.cluster
  _sk.cluster.KMeans = None
import sklearn.cluster

from clustering import central_privacy_utils as cpu
from clustering import clustering_algorithm as CA
from clustering import clustering_params as CP
from clustering import coreset_params as CO
from clustering import default_clustering_params as DCP
from clustering import lsh
from clustering import lsh_tree
from clustering import privacy_calculator as PC
from clustering import private_outputs


def explore(body, limit=None):
  """Runs body(choose) for every sequence of choices; choose(menu) picks one of menu. Yields (choices, result)."""
  path = []
  n = 0
  while True:
    pos = [0]
    sizes = []

    def choose(menu):
      i = pos[0]
      pos[0] += 1
      if i == len(path):
        path.append(0)
      sizes.append(len(menu))
      return menu[path[i]]
    r = body(choose)
    del path[pos[0]:]
    yield tuple(path), r
    n += 1
    if limit and n >= limit:
      raise AssertionError('more than %d executions' % limit)
    while path and path[-1] + 1 >= sizes[len(path) - 1]:
      path.pop()
    if not path:
      return
    path[-1] += 1


class Transcript:
  """Everything a run drew at random and released."""

  def __init__(self):
    self.counts = []    # (non-private count, parameter drawn with, noise, released)
    self.sums = []      # (points, scale, noise, count, released)
    self.planes = []    # (shape, scale, value) of other normal draws
    self.kmeans = None  # (clusters asked for, points, weights)


@contextlib.contextmanager
def controlled(count_of=None, noise_of=None, planes=None, centers=None):
  """Runs the code below with chosen randomness.

  count_of(i, nonprivate) -> released value of the i-th count (or None: noise_of decides)
  noise_of(i) -> noise of the i-th count
  planes(shape) -> projection vectors
  """
  t = Transcript()
  cur = {'count': None, 'avg': None}
  orig_count, orig_avg = cpu.get_private_count, cpu.get_private_average
  saved = []

  def rvs(*args, **kw):
    size = kw.get('size')
    assert size is None or size == 1 or size == (), 'count noise of size %r' % (size,)
    i = len(t.counts)
    c = cur['count']
    if c is not None and count_of is not None:
      z = count_of(i, c[0]) - c[0]
    else:
      z = noise_of(i)
    a = args[0] if args else kw.get('a')
    if c is None:
      t.counts.append([None, a, z, None])
    else:
      c[1].append((a, z))
    return z

  def normal(loc=0.0, scale=1.0, size=None):
    assert np.all(np.asarray(loc) == 0)
    c = cur['avg']
    shape = () if size is None else (size,) if np.isscalar(size) else tuple(size)
    if c is not None:
      i = len(t.sums)
      z = np.array([((-1) ** k) * (k + 1 + i) * 0.25 for k in range(int(np.prod(shape)))]).reshape(shape) * (scale != 0)
      c.append((scale, z))
      return z
    v = np.asarray(planes(shape), dtype=float).reshape(shape)
    t.planes.append((shape, scale, v))
    return v * scale

  def count(*args, **kw):
    n = args[0] if args else kw['nonprivate_count']
    draws = []
    cur['count'] = (n, draws)
    try:
      r = orig_count(*args, **kw)
    finally:
      cur['count'] = None
    t.counts.append([n, [d[0] for d in draws], [d[1] for d in draws], r])
    return r

  def avg(*args, **kw):
    names = ('nonprivate_points', 'private_count', 'average_privacy_param', 'dim')
    b = dict(zip(names, args), **kw)
    draws = []
    cur['avg'] = draws
    before = np.array(b['nonprivate_points'])
    try:
      r = orig_avg(*args, **kw)
    finally:
      cur['avg'] = None
    t.sums.append({'points': before, 'after': np.array(b['nonprivate_points']), 'scales': [d[0] for d in draws], 'noise': [d[1] for d in draws],
                   'count': b['private_count'], 'dim': b['dim'], 'released': r})
    return r

  class KMeans:

    def __init__(self, n_clusters, init=None, **kw):
      self.k = n_clusters

    def fit(self, points, y=None, sample_weight=None):
      t.kmeans = (self.k, np.array(points), np.array(sample_weight))
      self.cluster_centers_ = np.array(points)[:self.k] if centers is None else centers(self.k, points, sample_weight)
      return self

  def put(obj, name, value):
    saved.append((obj, name, getattr(obj, name)))
    setattr(obj, name, value)
  try:
    put(np.random, 'normal', normal)
    put(stats.dlaplace, 'rvs', rvs)
    put(sklearn.cluster, 'KMeans', KMeans)
    for m in [m for n, m in list(sys.modules.items()) if n.startswith('clustering.')]:
      for name in list(vars(m)):
        v = getattr(m, name)
        if v is orig_count:
          put(m, name, count)
        elif v is orig_avg:
          put(m, name, avg)
    yield t
  finally:
    for obj, name, value in reversed(saved):
      setattr(obj, name, value)


class Pcalc:
  """Noise levels given directly (stands in for PrivacyCalculator where calibration is not the subject)."""

  def __init__(self, sigma, a, radius):
    self.average_privacy_param = cpu.AveragePrivacyParam(sigma, radius)
    self.count_privacy_param = cpu.CountPrivacyParam(a)

  def validate_accounting(self, *args, **kw):
    pass


def key_of(points):
  return sorted(map(tuple, np.asarray(points, dtype=float).tolist()))
