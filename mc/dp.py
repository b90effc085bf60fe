"""Event descriptors (JSON-able) <-> library events, and their exact loss."""
import itertools
import math

import attr
import numpy as np

from dp_accounting import dp_event as D
from dp_accounting import privacy_accountant as PA
from mc import ref

REL = {'AR': PA.NeighboringRelation.ADD_OR_REMOVE_ONE,
       'RO': PA.NeighboringRelation.REPLACE_ONE,
       'RS': PA.NeighboringRelation.REPLACE_SPECIAL}


@attr.s(frozen=True, auto_attribs=True)
class UnknownDpEvent(D.DpEvent):
  """An event type that no accountant has been designed for."""
  x: float = 1.0


def ev(d):
  """Descriptor -> event. Descriptors are nested lists/strings."""
  if isinstance(d, str):
    return {'NOOP': D.NoOpDpEvent, 'NP': D.NonPrivateDpEvent,
            'UNS': D.UnsupportedDpEvent, 'UNK': UnknownDpEvent}[d]()
  k = d[0]
  if k == 'G':
    return D.GaussianDpEvent(d[1])
  if k == 'L':
    return D.LaplaceDpEvent(d[1])
  if k == 'RR':
    return D.RandomizedResponseDpEvent(d[1], d[2])
  if k == 'M':
    return D.MixtureOfGaussiansDpEvent(d[1], list(d[2]), list(d[3]))
  if k == 'PS':
    return D.PoissonSampledDpEvent(d[1], ev(d[2]))
  if k == 'WOR':
    return D.SampledWithoutReplacementDpEvent(d[1], d[2], ev(d[3]))
  if k == 'WR':
    return D.SampledWithReplacementDpEvent(d[1], d[2], ev(d[3]))
  if k == 'T':
    return D.SingleEpochTreeAggregationDpEvent(
        d[1], list(d[2]) if isinstance(d[2], (list, tuple)) else d[2])
  if k == 'RP':
    return D.RepeatAndSelectDpEvent(ev(d[1]), d[2], math.inf if d[3] == 'inf'
                                    else d[3])
  if k == 'C':
    return D.ComposedDpEvent([ev(x) for x in d[1]])
  if k == 'S':
    return D.SelfComposedDpEvent(ev(d[1]), d[2])
  raise ValueError(d)


def expand(e, mult=1):
  """Flat run-length list of (leaf event, count), no-ops dropped, in order."""
  if isinstance(e, D.NoOpDpEvent):
    return []
  if isinstance(e, D.SelfComposedDpEvent):
    inner = expand(e.event)
    if len(inner) == 1:
      out = [(inner[0][0], inner[0][1] * e.count * mult)]
    else:
      out = inner * (e.count * mult)
    return merge(out)
  if isinstance(e, D.ComposedDpEvent):
    out = []
    for x in e.events:
      out += expand(x)
    return merge(merge(out) * mult if mult != 1 else out)
  return [(e, mult)]


def merge(l):
  out = []
  for e, c in l:
    if out and out[-1][0] == e:
      out[-1] = (e, out[-1][1] + c)
    else:
      out.append((e, c))
  return out


def flat(d, n=1):
  """Descriptor -> list of leaf descriptors (with repetition), in order."""
  if d == 'NOOP':
    return []
  if isinstance(d, (list, tuple)) and d[0] == 'C':
    one = [y for x in d[1] for y in flat(x)]
    return one * n
  if isinstance(d, (list, tuple)) and d[0] == 'S':
    return flat(d[1]) * (d[2] * n)
  return [d] * n


def tup(d):
  return tuple(tup(x) for x in d) if isinstance(d, (list, tuple)) else d


# ----------------------------------------------------------- exact loss (grid)
_GRID_CACHE = {}


def eff_sigma(d):
  """Noise of the single Gaussian equivalent to a composition of Gaussians."""
  s = sum(1.0 / float(x[1])**2 for x in flat(d))
  return s**-0.5


def leaf_grids(d, rel, h):
  """[(grid for each adjacency direction)] exact-bracket PLDs of one leaf."""
  key = (tup(d), rel, h)
  if key in _GRID_CACHE:
    return _GRID_CACHE[key]
  k = d[0]
  if k == 'G':
    s = float(d[1])
    r, a = ref.gaussian_loss_cdfs(s)
    span = 0.5 / s**2 + 9.5 / s
    g = ref.GridPld.from_cdf(r, h, -span, span)
    out = (g, g)
  elif k == 'L':
    b = float(d[1])
    r, a = ref.laplace_loss_cdfs(b)
    out = tuple(ref.GridPld.from_cdf(f, h, -1 / b - h, 1 / b + h)
                for f in (r, a))
  elif k == 'PS':
    inner = d[2]
    q = float(d[1])
    leaves = flat(inner)
    if q == 0:
      z = ref.GridPld.from_atoms([0.0], [1.0], h)
      out = (z, z)
    elif all(x[0] == 'G' for x in leaves):
      s = eff_sigma(inner)
      r, a = ref.gaussian_loss_cdfs(s, q)
      span = 0.5 / s**2 + 9.5 / s
      out = tuple(ref.GridPld.from_cdf(f, h, -span, span) for f in (r, a))
    elif len(leaves) == 1 and leaves[0][0] == 'L':
      b = float(leaves[0][1])
      r, a = ref.laplace_loss_cdfs(b, q)
      out = tuple(ref.GridPld.from_cdf(f, h, -1 / b - h, 1 / b + h)
                  for f in (r, a))
    else:
      raise ValueError(d)
  elif k == 'M':
    r, a = ref.mixture_loss_cdfs(float(d[1]), d[2], d[3])
    m = max(d[2])
    s = float(d[1])
    span = 0.5 * (m / s)**2 + 9.5 * m / s
    out = tuple(ref.GridPld.from_cdf(f, h, -span, span) for f in (r, a))
  elif k == 'RR':
    P, Q = ref.rr_pair(float(d[1]), d[2], rel == 'RS')
    out = ref.pair_grid(P, Q, h)
  elif k == 'T':
    out = leaf_grids(['G', float(d[1]) / math.sqrt(tree_depth(d[2]))], rel, h)
  elif k == 'WOR':
    # one valid instance of neighbouring datasets: a lower bound of the truth
    q = d[2] / d[1]
    out = leaf_grids(['PS', q, d[3]], 'AR', h)
  elif k == 'RP':
    P, Q = repeat_select_pair(d, rel)
    out = ref.pair_grid(P, Q, h)
  else:
    raise ValueError(d)
  _GRID_CACHE[key] = out
  return out


def joint_grids(leaves, rel, h):
  """Joint exact-bracket PLD for both adjacency directions."""
  res = []
  for i in (0, 1):
    cnt = {}
    for d in leaves:
      cnt[tup(d)] = cnt.get(tup(d), 0) + 1
    out = None
    for d, n in sorted(cnt.items(), key=repr):
      g = leaf_grids(d, rel, h)[i].power(n)
      out = g if out is None else out.compose(g)
    if out is None:
      out = ref.GridPld.from_atoms([0.0], [1.0], h)
    res.append(out)
  return res


def delta_bounds(grids, eps):
  lo = max(g.bounds(eps)[0] for g in grids)
  hi = max(g.bounds(eps)[1] for g in grids)
  return lo, hi


# -------------------------------------------------------------- tree, repeats
def tree_depth(steps):
  """Largest number of complete dyadic blocks of [0, n) that hold one leaf."""
  counts = [steps] if isinstance(steps, int) else list(steps)
  best = 0
  for n in counts:
    for leaf in range(n):
      c, size = 0, 1
      while size <= n:
        b = leaf // size
        if (b + 1) * size <= n:
          c += 1
        size *= 2
      best = max(best, c)
  return best


def _tnb_gamma(mean, shape):
  """Success probability of the truncated negative binomial, by bisection."""
  def m(g):
    if g >= 1:
      return 1.0
    if shape == 0:
      return (1 / g - 1) / math.log(1 / g)
    return shape * (1 / g - 1) / -math.expm1(shape * math.log(g))
  lo, hi = 1e-12, 1.0
  for _ in range(300):
    mid = (lo + hi) / 2
    if m(mid) > mean:
      lo = mid
    else:
      hi = mid
  return (lo + hi) / 2


def repeat_pgf(mean, shape):
  if shape == 'inf' or shape == math.inf:
    return lambda x: math.exp(mean * (x - 1)), math.exp(-mean)
  if mean == 1:
    return (lambda x: x), 0.0
  g = _tnb_gamma(mean, shape)
  if shape == 0:
    return (lambda x: math.log1p(-(1 - g) * x) / math.log(g)), 0.0
  return (lambda x: math.expm1(-shape * math.log1p(-(1 - g) * x)) / math.expm1(-shape * math.log(g))), 0.0


def base_pair(d, rel):
  """A finite pair of output laws (coarsened for continuous mechanisms)."""
  if d[0] == 'RR':
    return ref.rr_pair(float(d[1]), d[2], rel == 'RS')
  if d[0] == 'G':
    from scipy import special
    s = float(d[1])
    cuts = np.concatenate([[-np.inf], np.linspace(-4 * s, 4 * s + 1, 25),
                           [np.inf]])
    return (list(np.diff(special.ndtr((cuts - 1) / s))),
            list(np.diff(special.ndtr(cuts / s))))
  if d[0] in ('C', 'S'):
    return ref.product_pair([base_pair(x, rel) for x in flat(d)])
  if d[0] == 'RP':
    return repeat_select_pair(d, rel)
  if d[0] == 'L':
    b = float(d[1])
    cuts = np.concatenate([[-np.inf], np.linspace(0, 1, 12), [np.inf]])
    return (list(np.diff(ref._lap_cdf(cuts - 1, b))), list(np.diff(ref._lap_cdf(cuts, b))))
  raise ValueError(d)


def repeat_select_pair(d, rel, orders=None):
  """Exact output laws of repeat-and-select: best outcome of K runs.

  The quality order of the outcomes is by decreasing likelihood ratio, and its
  reverse; the pair with the larger total variation is returned.
  """
  f, p0 = repeat_pgf(float(d[2]), d[3])
  P, Q = base_pair(d[1], rel)
  best = None
  for sgn in (1, -1):
    idx = sorted(range(len(P)), key=lambda i: sgn * (
        P[i] / Q[i] if Q[i] else math.inf))

    def law(p):
      out, c, prev = [], 0.0, f(0.0)
      for i in idx:
        c += float(p[i])
        cur = f(min(c, 1.0))
        out.append(max(0.0, cur - prev))
        prev = cur
      return out + [p0]
    A, B = law(P), law(Q)
    tv = ref.hockey(A, B, 0)
    if best is None or tv > best[0]:
      best = (tv, A, B)
  return best[1], best[2]


def accountant(kind, rel, orders=None, h=None):
  if kind == 'RDP':
    from dp_accounting.rdp import rdp_privacy_accountant as R
    return R.RdpAccountant(orders, REL[rel]) if orders is not None else (
        R.RdpAccountant(neighboring_relation=REL[rel]))
  from dp_accounting.pld import pld_privacy_accountant as P
  return P.PLDAccountant(REL[rel], h) if h else P.PLDAccountant(REL[rel])
