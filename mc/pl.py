"""Loss distributions: program descriptors, exact composition, real objects."""
import itertools
import math

import numpy as np

from dp_accounting.pld import pld_pmf
from dp_accounting.pld import privacy_loss_distribution as PL


def simplex(n, parts):
  if parts == 1:
    return [(n,)]
  return [(k,) + r for k in range(n + 1) for r in simplex(n - k, parts - 1)]


def log(x):
  return math.log(x) if x > 0 else -math.inf


def dense(pld):
  """The same distribution with the dense representation."""
  if pld._symmetric:  # pylint: disable=protected-access
    return PL.PrivacyLossDistribution(pld._pmf_remove.to_dense_pmf())
  return PL.PrivacyLossDistribution(pld._pmf_remove.to_dense_pmf(), pld._pmf_add.to_dense_pmf())


def from_pair(P, Q, h, pess=True, symmetric=False, trunc=-math.inf):
  """Loss distribution of the pair: P on the larger, Q on the smaller input."""
  return PL.from_two_probability_mass_functions(
      {i: log(q) for i, q in enumerate(Q)}, {i: log(p) for i, p in enumerate(P)}, pess, h, trunc, symmetric)


# ------------------------------------------------ exact composition of pairs
def atoms(P, Q):
  """[(loss, prob)] of P over Q (loss may be inf)."""
  out = []
  for p, q in zip(P, Q):
    if p > 0:
      out.append((math.log(p) - math.log(q) if q > 0 else math.inf, p))
  return out


def power_atoms(P, Q, n):
  """Atoms of n independent runs, by direct multinomial enumeration."""
  at = atoms(P, Q)
  if n == 1:
    return at
  out = []
  for ks in simplex(n, len(at)):
    c, rem = 1, n
    for k in ks:
      c *= math.comb(rem, k)
      rem -= k
    p = math.exp(math.log(c) + sum(k * math.log(a[1]) for k, a in zip(ks, at)))
    l = sum(k * a[0] for k, a in zip(ks, at) if k)
    out.append((l, p))
  return out


def joint_atoms(counts, pairs, flip=False):
  """counts: {pair index: number of runs}; flip per pair handled by caller."""
  cur = [(0.0, 1.0)]
  for i in sorted(counts):
    P, Q = pairs[i]
    nxt = power_atoms(P, Q, counts[i])
    cur = [(l + m, p * q) for l, p in cur for m, q in nxt]
  return cur


class Exact:
  """Exact hockey-stick divergence of an atom list, for many epsilons."""

  def __init__(self, at):
    self.inf = math.fsum(p for l, p in at if l == math.inf)
    self.l = np.array([l for l, p in at if l != math.inf], dtype=float)
    self.p = np.array([p for l, p in at if l != math.inf], dtype=float)
    self.memo = {}

  def __call__(self, eps):
    if eps not in self.memo:
      self.memo[eps] = self._delta(eps)
    return self.memo[eps]

  def _delta(self, eps):
    m = self.l > eps
    return self.inf + float(np.dot(-np.expm1(eps - self.l[m]), self.p[m]))


def deltas(pld, eps):
  return [float(pld.get_delta_for_epsilon(e)) for e in eps]
