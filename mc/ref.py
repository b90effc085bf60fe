"""Boring reference models, written independently of the code under test.

Everything is computed from first principles: the hockey-stick divergence
  delta(eps) = sum_o max(0, P(o) - e^eps Q(o))
and the Renyi divergence of explicit pairs of output distributions.
"""
import math

import numpy as np
from scipy import special


# ---------------------------------------------------------------- finite pairs
def hockey(P, Q, eps):
  """Exact hockey-stick divergence of two aligned finite distributions."""
  e = math.exp(eps) if eps < 700 else math.inf
  out = []
  for p, q in zip(P, Q):
    if q == 0:
      out.append(float(p))
    elif e != math.inf:
      d = float(p) - e * float(q)
      if d > 0:
        out.append(d)
  return math.fsum(out)


def product_pair(pairs):
  """Joint output distribution of independent runs on each of two inputs."""
  P, Q = [1.0], [1.0]
  for p, q in pairs:
    P = [a * float(b) for a in P for b in p]
    Q = [a * float(b) for a in Q for b in q]
  return P, Q


def renyi(P, Q, alpha):
  s = []
  for p, q in zip(P, Q):
    p, q = float(p), float(q)
    if p == 0:
      continue
    if q == 0:
      return math.inf
    s.append(alpha * math.log(p) + (1 - alpha) * math.log(q))
  if math.isinf(alpha):
    return max(math.log(p / q) for p, q in zip(P, Q) if p)
  m = max(s)
  return (m + math.log(math.fsum(math.exp(v - m) for v in s))) / (alpha - 1)


def rr_pair(p, k, special_rel):
  """Randomized response over k buckets: output laws on neighbouring inputs."""
  own, other = 1 - p + p / k, p / k
  x = [own] + [other] * (k - 1)
  if special_rel:
    return x, [1.0 / k] * k
  y = [other, own] + [other] * (k - 2) if k > 1 else [1.0]
  return x, y


# ------------------------------------------------------------- grid PLD model
class GridPld:
  """Two-sided bracket of a privacy loss distribution on a loss grid.

  lo rounds every loss down (a lower bound for delta), hi rounds up (an upper
  bound). Composition is convolution. True delta lies in [lo, hi].
  """

  def __init__(self, h, lo, hi, lo0, hi0, hi_inf, lo_inf=0.0):
    self.h, self.lo, self.hi = h, lo, hi
    self.lo0, self.hi0 = lo0, hi0  # grid index of element 0
    self.hi_inf, self.lo_inf = hi_inf, lo_inf

  @classmethod
  def from_cdf(cls, F, h, lmin, lmax, inf_mass=0.0):
    """F(l) = Pr_P[loss <= l], vectorised; inf_mass = Pr_P[loss = inf]."""
    a, b = math.floor(lmin / h) - 1, math.ceil(lmax / h) + 1
    grid = np.arange(a, b + 1) * h
    c = np.asarray(F(grid), dtype=float)
    mass = np.diff(c)
    mass = np.maximum(mass, 0)
    low_tail, up_tail = max(0.0, c[0]), max(0.0, 1 - inf_mass - c[-1])
    # interval j is (grid[j], grid[j+1]]
    lo = mass.copy()
    lo_pad = np.append(lo, up_tail)  # upper tail sits at loss > grid[-1]
    hi = mass.copy()
    hi = np.insert(hi, 0, low_tail)
    return cls(h, lo_pad, hi, a, a, inf_mass + up_tail, inf_mass)

  @classmethod
  def from_atoms(cls, losses, probs, h, inf_mass=0.0):
    lo, hi = {}, {}
    for l, p in zip(losses, probs):
      if p <= 0:
        continue
      # nudge so that float noise on an exact grid multiple does not widen it
      j = l / h
      jl = math.floor(j + 1e-9)
      ju = math.ceil(j - 1e-9)
      lo[jl] = lo.get(jl, 0) + p
      hi[ju] = hi.get(ju, 0) + p

    def arr(d):
      if not d:
        return np.zeros(1), 0
      a, b = min(d), max(d)
      v = np.zeros(b - a + 1)
      for k, x in d.items():
        v[k - a] += x
      return v, a
    lv, l0 = arr(lo)
    hv, h0 = arr(hi)
    return cls(h, lv, hv, l0, h0, inf_mass, inf_mass)

  def compose(self, o):
    from scipy import signal
    assert self.h == o.h
    conv = lambda x, y: np.maximum(signal.fftconvolve(x, y), 0) if (
        min(len(x), len(y)) > 30) else np.convolve(x, y)
    return GridPld(
        self.h, conv(self.lo, o.lo), conv(self.hi, o.hi), self.lo0 + o.lo0,
        self.hi0 + o.hi0,
        1 - (1 - self.hi_inf) * (1 - o.hi_inf),
        1 - (1 - self.lo_inf) * (1 - o.lo_inf))

  def power(self, n):
    out, base = None, self
    while n:
      if n & 1:
        out = base if out is None else out.compose(base)
      n >>= 1
      if n:
        base = base.compose(base)
    return out

  @staticmethod
  def _delta(v, first, h, inf, eps):
    losses = (np.arange(len(v)) + first) * h
    m = losses > eps
    return inf + float(np.dot(-np.expm1(eps - losses[m]), v[m]))

  def bounds(self, eps):
    return (self._delta(self.lo, self.lo0, self.h, self.lo_inf, eps),
            self._delta(self.hi, self.hi0, self.h, self.hi_inf, eps))


def pair_grid(P, Q, h):
  """Grid PLDs (P over Q, Q over P) of a finite pair."""
  def one(p, q):
    losses, probs, inf = [], [], 0.0
    for a, b in zip(p, q):
      a, b = float(a), float(b)
      if a == 0:
        continue
      if b == 0:
        inf += a
      else:
        losses.append(math.log(a / b))
        probs.append(a)
    return GridPld.from_atoms(losses, probs, h, inf)
  return one(P, Q), one(Q, P)


# ----------------------------------------------- additive noise: loss cdfs
def _mix_loss_inverse(l, q, base):
  """Solves log(1 - q + q e^t) = l for t (array), -inf when l <= log(1-q)."""
  l = np.asarray(l, dtype=float)
  if q == 1:
    return l
  with np.errstate(all='ignore'):
    # e^t = (e^l - (1-q)) / q
    v = np.expm1(l) + q
    t = np.where(v > 0, np.log(np.maximum(v, 1e-300)) - math.log(q), -np.inf)
    big = l > 30
    t = np.where(big, l - math.log(q) + np.log1p(-(1 - q) * np.exp(-np.where(
        big, l, 30.0))), t)
  return t


def gaussian_loss_cdfs(sigma, q=1.0, sens=1.0):
  """Loss cdfs for the pair P=(1-q)N(0)+qN(sens), Q=N(0): (remove, add)."""
  s = sigma / sens

  def x_of(l):  # outcome (in units of sens) at which loss equals l
    t = _mix_loss_inverse(l, q, None)
    return s * s * t + 0.5

  def cdf_P(x):
    return (1 - q) * special.ndtr(x / s) + q * special.ndtr((x - 1) / s)

  def remove(l):
    return cdf_P(x_of(l))

  def add(l):
    # outcome ~ N(0), loss = -l(x); loss <= l  iff  l(x) >= -l iff x >= x(-l)
    return special.ndtr(-x_of(-np.asarray(l)) / s)
  return remove, add


def _lap_cdf(x, b):
  x = np.asarray(x, dtype=float)
  return np.where(x < 0, 0.5 * np.exp(np.minimum(x, 0) / b),
                  1 - 0.5 * np.exp(-np.maximum(x, 0) / b))


def laplace_loss_cdfs(b, q=1.0, sens=1.0):
  bb = b / sens
  m = 1 / bb

  def remove(l):
    t = _mix_loss_inverse(l, q, None)  # (|x|-|x-1|)/bb = (2x-1)/bb in [0,1]
    x = (t * bb + 1) / 2
    xc = np.clip(x, 0, 1)
    c = (1 - q) * _lap_cdf(xc, bb) + q * _lap_cdf(xc - 1, bb)
    return np.where(t < -m * (1 + 1e-15), 0.0, np.where(t >= m * (1 - 1e-15),
                                                        1.0, c))

  def add(l):
    t = _mix_loss_inverse(-np.asarray(l, dtype=float), q, None)
    # loss=-l(x) <= l iff t(x) >= t
    x = (t * bb + 1) / 2
    xc = np.clip(x, 0, 1)
    c = 1 - _lap_cdf(xc, bb)
    return np.where(t <= -m * (1 - 1e-15), 1.0, np.where(t > m * (1 + 1e-15),
                                                         0.0, c))
  return remove, add


def mixture_loss_cdfs(sigma, sens, probs):
  """P = sum p_i N(c_i, sigma^2) against Q = N(0, sigma^2), c_i >= 0."""
  sens = np.asarray(sens, dtype=float)
  probs = np.asarray(probs, dtype=float)
  keep = probs > 0
  sens, probs = sens[keep], probs[keep]

  def loss(x):
    x = np.asarray(x, dtype=float)[..., None]
    return special.logsumexp((2 * x * sens - sens**2) / (2 * sigma**2),
                             b=probs, axis=-1)

  def x_of(l):
    l = np.asarray(l, dtype=float)
    lo = np.full(l.shape, -1e7)
    hi = np.full(l.shape, 1e7)
    for _ in range(200):
      mid = (lo + hi) / 2
      up = loss(mid) > l
      hi = np.where(up, mid, hi)
      lo = np.where(up, lo, mid)
    return lo

  def remove(l):
    x = x_of(l)
    return (probs * special.ndtr((x[..., None] - sens) / sigma)).sum(-1)

  def add(l):
    x = x_of(-np.asarray(l, dtype=float))
    return special.ndtr(-x / sigma)
  return remove, add


# discrete noise: explicit pmfs
def dlaplace_pmf(a, radius):
  x = np.arange(-radius, radius + 1)
  c = math.tanh(a / 2)
  return x, c * np.exp(-a * np.abs(x))


def dgauss_pmf(sigma, radius):
  x = np.arange(-radius, radius + 1)
  w = np.exp(-0.5 * (x / sigma)**2)
  return x, w / w.sum()


def shifted_pair(pmf, sens, q=1.0):
  """(P, Q): P=(1-q) noise + q (noise shifted by sens), Q = noise."""
  n = len(pmf)
  base = np.concatenate([pmf, np.zeros(sens)])
  sh = np.concatenate([np.zeros(sens), pmf])
  return (1 - q) * base + q * sh, base


# ------------------------------------------------------------ closed forms
def gaussian_delta(sigma, eps, sens=1.0):
  """Exact delta of one Gaussian release (both directions are equal)."""
  m = sens / sigma
  a = special.log_ndtr(m / 2 - eps / m)
  b = eps + special.log_ndtr(-m / 2 - eps / m)
  if b >= a:
    return 0.0
  return float(math.exp(a) * -math.expm1(b - a))


def laplace_delta(b, eps, sens=1.0):
  m = sens / b
  if eps >= m:
    return 0.0
  if eps <= -m:
    return float(-math.expm1(eps))
  if eps >= 0:
    return float(-math.expm1((eps - m) / 2))
  # Pr_P[x below the threshold] - e^eps Pr_Q[same]; threshold inside [0, 1]
  t = (1 - eps * b / sens) / 2
  P = float(1 - 0.5 * math.exp(-t * m)) if True else 0
  Q = 0.5 * math.exp(-(1 - t) * m)
  return P - math.exp(eps) * Q


# ---------------------------------------------------- Renyi by quadrature
def renyi_gauss_mix(sigma, weights_p, means_p, weights_q, means_q, alpha):
  """D_alpha between two finite Gaussian mixtures (trapezoid, log space)."""
  mp_, mq = np.asarray(means_p, float), np.asarray(means_q, float)
  wp, wq = np.asarray(weights_p, float), np.asarray(weights_q, float)
  span = max(abs(mp_).max(), abs(mq).max(), 1e-9)
  lo = -(alpha + 1) * span * 1.0 - 40 * sigma
  hi = (alpha + 1) * span * 1.0 + 40 * sigma
  n = int(min(4000000, max(20000, (hi - lo) / sigma * 60)))
  x = np.linspace(lo, hi, n)
  dx = x[1] - x[0]

  def logpdf(w, m):
    out = None
    for wi, mi in zip(w, m):
      if wi == 0:
        continue
      t = math.log(wi) - 0.5 * ((x - mi) / sigma)**2
      out = t if out is None else np.logaddexp(out, t)
    return out - math.log(sigma * math.sqrt(2 * math.pi))
  lp, lq = logpdf(wp, mp_), logpdf(wq, mq)
  # E_Q[r^alpha] - 1 = E_Q[r^alpha - 1 - alpha (r - 1)] =: E_Q[f], f >= 0,
  # which keeps its precision when the divergence is tiny.
  lr = lp - lq
  small = np.abs(lr) * alpha < 2
  ls = lr[small]
  part = float(np.dot(np.expm1(alpha * ls) - alpha * np.expm1(ls), np.exp(lq[small])) * dx)
  ll, lw = lr[~small], lq[~small]
  if len(ll):
    # f = r^alpha + (alpha - 1) - alpha r, in log space against overflow
    pos = special.logsumexp(np.logaddexp(alpha * ll + lw, math.log(max(alpha - 1, 1e-300)) + lw)) + math.log(dx)
    neg = special.logsumexp(math.log(alpha) + ll + lw) + math.log(dx)
    if pos > 30:
      return float((pos + math.log1p(-math.exp(neg - pos) + (1 + part) * math.exp(-pos))) / (alpha - 1))
    part += math.exp(pos) - math.exp(neg)
  return float(math.log1p(part) / (alpha - 1))


def renyi_laplace(b, alpha):
  """Closed form by direct integration of the three pieces."""
  m = 1.0 / b
  if alpha == 1:
    return m + math.expm1(-m)
  # x<0: 1/2 e^{(1-alpha... )}
  t1 = math.log(0.5) + (alpha - 1) * m        # far side: loss m, P mass 1/2 ...
  t2 = math.log(0.5) - alpha * m              # loss -m
  # middle: int_0^1 (1/2b) e^{-(1-x)alpha/b} e^{-x(1-alpha)/b} dx  (P at 1,Q at 0)
  k = (2 * alpha - 1) * m
  mid = math.log(0.5 * m) - alpha * m + math.log(math.expm1(k) / k if k < 700 else 1.0) + (0 if k < 700 else k - math.log(k))
  v = np.logaddexp(np.logaddexp(t1, t2), mid)
  return float(v / (alpha - 1))
