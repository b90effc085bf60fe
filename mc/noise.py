"""Independent models of one noisy release on two neighbouring inputs.

Both the real mechanism object and a factory for its loss distribution are
built here from one descriptor; the model never calls them.

desc: {'k': 'lap'|'gauss'|'mix'|'dlap'|'dgauss', 'p': noise parameter,
       'w': [(probability, shift), ...], 'add': bool, 't': truncation or None}
REMOVE: outcome ~ sum w_i noise(x + c_i) against noise(x);
ADD:    outcome ~ noise(x) against sum w_i noise(x - c_i).
"""
import math

import numpy as np
from scipy import special

NEG = -np.inf


class Continuous:
  discrete = False

  def __init__(self, d):
    self.k, self.p, self.add = d['k'], float(d['p']), d['add']
    self.w = [(w, float(c)) for w, c in d['w'] if w > 0]
    self.memo = {}
    m = max(c for _, c in self.w)
    # beyond this both laws have negligible mass and (Laplace) constant loss
    self.R = m + 1e3 * max(self.p, self.p * self.p / min(c for _, c in self.w if c > 0)) + 1e3 * m

  def logpdf(self, x):
    x = np.asarray(x, dtype=float)
    if self.k == 'lap':
      return -np.abs(x) / self.p
    return -0.5 * (x / self.p)**2

  def logcdf(self, x):
    x = np.asarray(x, dtype=float)
    if self.k == 'lap':
      with np.errstate(all='ignore'):
        lo = math.log(0.5) + np.minimum(x, 0) / self.p
        return np.where(x < 0, lo, np.log1p(-0.5 * np.exp(-np.maximum(x, 0) / self.p)))
    return special.log_ndtr(x / self.p)

  def _mix(self, f, x, sign):
    return special.logsumexp([math.log(w) + f(np.asarray(x, dtype=float) + sign * c) for w, c in self.w], axis=0)

  def up_logcdf(self, x):
    return self.logcdf(x) if self.add else self._mix(self.logcdf, x, 1)

  def lo_logcdf(self, x):
    return self._mix(self.logcdf, x, -1) if self.add else self.logcdf(x)

  def up_sf(self, x):  # mass above x
    g = lambda y: np.exp(self.logcdf(-y))
    if self.add:
      return g(np.asarray(x, dtype=float))
    return sum(w * g(np.asarray(x, dtype=float) + c) for w, c in self.w)

  def loss(self, x):
    """Log ratio of the densities, differences taken before exponentials."""
    x = np.asarray(x, dtype=float)
    s = -1 if self.add else 1
    if self.k == 'lap':
      diffs = [(np.abs(x) - np.abs(x + s * c)) / self.p for _, c in self.w]
    else:
      diffs = [-(2 * x * s * c + c * c) / (2 * self.p**2) for _, c in self.w]
    m = special.logsumexp([math.log(w) + d for (w, _), d in zip(self.w, diffs)], axis=0)
    return -m if self.add else m

  def cut(self, eps):
    """Supremum of outcomes with loss > eps."""
    lo, hi = -self.R, self.R
    if not self.loss(lo) > eps:
      return -math.inf
    if self.loss(hi) > eps:
      return math.inf
    for _ in range(120):
      mid = (lo + hi) / 2
      if self.loss(mid) > eps:
        lo = mid
      else:
        hi = mid
      if hi - lo < 1e-14 * max(abs(lo), abs(hi)):
        break
    return lo

  def part(self, a, b, eps):
    """Contribution of outcomes in (a, b] to the divergence."""
    c = min(b, self.cut(eps))
    if c <= a:
      return 0.0
    u = float(np.exp(self.up_logcdf(c)) - np.exp(self.up_logcdf(a)))
    l = float(np.exp(self.lo_logcdf(c) + eps) - np.exp(self.lo_logcdf(a) + eps))
    return u - l

  def delta(self, eps):
    if eps not in self.memo:
      self.memo[eps] = max(0.0, self.part(-math.inf, math.inf, eps))
    return self.memo[eps]


class Discrete:
  discrete = True

  def __init__(self, d):
    self.k, self.p, self.add = d['k'], float(d['p']), d['add']
    self.w = [(w, int(c)) for w, c in d['w'] if w > 0]
    m = max(c for _, c in self.w)
    if self.k == 'dgauss':
      r = d.get('t') or math.ceil(11.6 * self.p)
    else:
      r = int(60 / self.p) + 2
    self.r = r
    pad = m + 3
    self.x = np.arange(-r - pad, r + pad + 1)
    self.base = self._pmf(self.x)
    if self.k == 'dgauss':
      self.base = self.base / self.base.sum()
    else:
      self.base *= math.tanh(self.p / 2)
    s = -1 if self.add else 1
    mix = np.zeros(len(self.x))
    for w, c in self.w:
      sh = self._pmf(self.x + s * c)
      mix += w * (sh * (self.base[r + pad] / 1.0))  # normalised by mass at 0
    self.up, self.lo = (self.base, mix) if self.add else (mix, self.base)
    self.losses = np.array([self._loss(int(x)) for x in self.x])
    self.memo = {}

  def _loss(self, x):
    v = self.loss(x)
    return NEG if v is None else v

  def _pmf(self, x):
    """Unnormalised, value 1 at zero."""
    if self.k == 'dgauss':
      return np.where(np.abs(x) <= self.r, np.exp(-0.5 * (x / self.p)**2), 0.0)
    return np.exp(-self.p * np.abs(x))

  def _raw(self, x):
    if self.k == 'dgauss':
      return -0.5 * (x / self.p)**2 if abs(x) <= self.r else NEG
    return -self.p * abs(x)

  def loss(self, x):
    """Exact loss at an integer, None when both laws vanish there."""
    s = -1 if self.add else 1
    b = self._raw(x)
    parts = [(w, self._raw(x + s * c)) for w, c in self.w]
    if b == NEG and all(v == NEG for _, v in parts):
      return None
    if b == NEG:
      return math.inf if not self.add else -math.inf
    if all(v == NEG for _, v in parts):
      return -math.inf if not self.add else math.inf
    m = max(v - b for _, v in parts)
    t = m + math.log(math.fsum(w * math.exp(v - b - m) for w, v in parts))
    return -t if self.add else t

  def delta(self, eps):
    if eps not in self.memo:
      self.memo[eps] = self.part(-math.inf, math.inf, eps)
    return self.memo[eps]

  def part(self, a, b, eps):
    m = (self.x > a) & (self.x <= b)
    ls = self.losses[m]
    with np.errstate(all='ignore'):
      d = np.where(ls > eps, self.up[m] * -np.expm1(eps - ls), 0.0)
    return math.fsum(d[d > 0])

  def up_cdf(self, x):
    return math.fsum(self.up[self.x <= x])

  def lo_cdf(self, x):
    return math.fsum(self.lo[self.x <= x])


def model(d):
  return (Discrete if d['k'] in ('dlap', 'dgauss') else Continuous)(d)


def sampled(q, s):
  return [(1 - q, 0), (q, s)] if q < 1 else [(1, s)]


# --------------------------------------------------------------- real objects
def real(d, pess=True, bound=-50):
  from dp_accounting.pld import privacy_loss_mechanism as M
  adj = M.AdjacencyType.ADD if d['add'] else M.AdjacencyType.REMOVE
  if d['k'] == 'mix':
    return M.MixtureGaussianPrivacyLoss(d['p'], [c for _, c in d['w']], [w for w, _ in d['w']], pess, bound, adj)
  q, s = d['w'][-1]
  if d['k'] == 'lap':
    return M.LaplacePrivacyLoss(d['p'], s, q, adj)
  if d['k'] == 'gauss':
    return M.GaussianPrivacyLoss(d['p'], s, pess, bound, q, adj)
  if d['k'] == 'dlap':
    return M.DiscreteLaplacePrivacyLoss(d['p'], s, q, adj)
  return M.DiscreteGaussianPrivacyLoss(d['p'], s, d.get('t'), q, adj)


def real_pld(d, h, pess=True, dots=True, bound=-50):
  from dp_accounting.pld import privacy_loss_distribution as L
  kw = dict(pessimistic_estimate=pess, value_discretization_interval=h, use_connect_dots=dots)
  if d['k'] == 'mix':
    return L.from_mixture_gaussian_mechanism(d['p'], [c for _, c in d['w']], [w for w, _ in d['w']],
                                             log_mass_truncation_bound=bound, **kw)
  q, s = d['w'][-1]
  kw.update(sensitivity=s, sampling_prob=q)
  if d['k'] == 'lap':
    return L.from_laplace_mechanism(d['p'], **kw)
  if d['k'] == 'gauss':
    return L.from_gaussian_mechanism(d['p'], log_mass_truncation_bound=bound, **kw)
  if d['k'] == 'dlap':
    return L.from_discrete_laplace_mechanism(d['p'], **kw)
  return L.from_discrete_gaussian_mechanism(d['p'], truncation_bound=d.get('t'), **kw)
