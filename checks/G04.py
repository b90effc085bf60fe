"""Noise calibration, thresholds and confidence intervals of the Go library."""
import json
import math

import mpmath as mp

from mc import gobin

PROPERTY = 'G04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of parameters and of noisy outcomes on the real Go code against exact distributions'
RULE = '''for every combination of epsilon, delta, sensitivities, threshold delta and confidence level of a grid reaching to the ends of the number
formats: the Gaussian deviation chosen really gives (epsilon, delta) by the exact formula and no deviation 0.2 % smaller would; the chance that a value of one
user passes the threshold in any of its partitions (the noise of integers being rounded) is at most the threshold delta, for counts, sums, pre-thresholded
counts, decided on every noisy outcome around the threshold and at the ends of the integers; confidence intervals of the noises and of counts, sums and means
cover the true value with the stated probability, are not wider than needed, and respect the range of the aggregate'''
ASSUMPTIONS = ['noise distributed as G05 establishes, with the continuous limit of its granularity (2^-40 of the scale)', 'gonum replaced by a stand-in']

mp.mp.dps = 40
M = mp.mpf


def setup(tier):
  gobin.build()


teardown = gobin.clean


def phi(x):
  if abs(x) > 1e6:
    return M(0) if x < 0 else M(1)
  return mp.erfc(-x / mp.sqrt(2)) / 2


def delta_of(sigma, l2, eps):
  a, b = l2 / (2 * sigma), eps * sigma / l2
  lo = phi(-a - b)
  return phi(a - b) - mp.exp(eps) * lo


def ask(qs):
  r = json.loads(gobin.subprocess.run([gobin.BIN, 'eval'], input=json.dumps(qs), stdout=gobin.subprocess.PIPE, text=True, timeout=600, check=True).stdout)
  return r


def q(op, **kw):
  d = {'Op': op}
  d.update(kw)
  return d


EPS = [1e-12, 1e-6, 1e-3, 0.1, 0.5, 1.0, math.log(3), 3.0, 10.0, 50.0, 800.0]
DELS = [1e-300, 1e-30, 1e-15, 1e-10, 1e-5, 1e-2, 0.3, 0.9, 1 - 1e-9]
L0S = [1, 2, 4, 7, 100, 10**9]
LINFS = [1.0, 3.0, 1e-6, 12345.678, 1e200, 1e-200]
TDS = [1e-300, 1e-17, 1.5e-16, 1e-15, 1e-10, 1e-5, 1e-2, 0.3, 0.75, 0.99]
ALPHAS = [1e-300, 1e-15, 1e-6, 0.01, 0.05, 0.5, 0.9, 0.999999]
XS = [0.0, 1.0, -3.7, 1e9, -1e15, 1e300]
XI = [0, 1, -5, 10**6, 2**53 + 1, -(2**53) - 3, 2**62, -2**62 - 1, 2**63 - 1, -2**63]


def cases(tier):
  for e in EPS:
    yield {'op': 'sigma', 'eps': e}
    for g in (False, True):
      if g and not 1e-6 <= e <= 50:
        continue
      yield {'op': 'threshold', 'eps': e, 'g': g}
      yield {'op': 'keep', 'eps': e, 'g': g}
      yield {'op': 'cif', 'eps': e, 'g': g}
      yield {'op': 'cii', 'eps': e, 'g': g}
      if 1e-3 <= e <= 10:
        yield {'op': 'ci', 'eps': e, 'g': g}


class Noise:
  """The distribution of the noise: scale and tail."""

  def __init__(self, g, l0, linf, eps, sigma=None):
    self.g = g
    self.s = M(sigma) if g else M(l0) * M(linf) / M(eps)

  def sf(self, y):
    """P(Y >= y)."""
    if not mp.isfinite(y):
      return M(0) if y > 0 else M(1)
    if self.g:
      return phi(-y / self.s)
    return mp.exp(-y / self.s) / 2 if y >= 0 else 1 - mp.exp(y / self.s) / 2


def any_of(p, l0):
  """The chance of at least one of l0 independent events."""
  return -mp.expm1(l0 * mp.log1p(-p)) if p < 1 else M(1)


def sigmas(case, todo):
  r = ask([q('sigma', G=True, L0=a, Flinf=b, Eps=case['eps'], Del=d) for a, b, d in todo])
  return [float(x[0]) for x in r]


def run_sigma(case, ctx):
  e = case['eps']
  todo = [(a, b, d) for a in L0S for b in LINFS for d in DELS]
  for (a, b, d), s in zip(todo, sigmas(case, todo)):
    key = 'sigma eps=%g l0=%d linf=%g delta=%g' % (e, a, b, d)
    ctx.state(key)
    ctx.step()
    l2 = M(b) * mp.sqrt(a)
    ctx.check(s > 0 and math.isfinite(s) or s == math.inf and b == 1e200, key, 'sigma %r' % s)
    if not 0 < s < math.inf:
      continue
    if d < 1e-200 and e < 1:
      tol = M('1e-15')  # differences of probabilities of normals
    else:
      tol = M(d) * M('1e-9') + M('4e-16')
    got = delta_of(M(s), l2, M(e))
    ctx.check(got <= M(d) + tol, key, 'sigma %r gives delta %s, not %r' % (s, mp.nstr(got, 10), d))
    less = delta_of(M(s) * M('0.998'), l2, M(e))
    ctx.check(less >= M(d) - tol, key, 'sigma %r is larger than needed: 0.2%% less gives delta %s' % (s, mp.nstr(less, 10)))
  ctx.trace(case)


def combos(g, linfs=LINFS):
  for a in L0S:
    for b in linfs:
      for d in ([1e-15, 1e-5, 0.1] if g else [0.0]):
        yield a, b, d


def with_sigma(case, cs):
  cs = list(cs)
  if not case['g']:
    return [c + (None,) for c in cs]
  return [c + (s,) for c, s in zip(cs, sigmas(case, cs))]


def run_threshold(case, ctx):
  e, g = case['eps'], case['g']
  cs = with_sigma(case, combos(g))
  todo = [(a, b, d, s, t) for a, b, d, s in cs for t in TDS if d + t < 1]
  ths = ask([q('threshold', G=g, L0=a, Flinf=b, Eps=e, Del=d, Td=t) for a, b, d, s, t in todo])
  qd = []
  for (a, b, d, s, t), r in zip(todo, ths):
    key = 'threshold %s eps=%g l0=%d linf=%g delta=%g threshold delta=%g' % ('Gaussian' if g else 'Laplace', e, a, b, d, t)
    ctx.state(key)
    ctx.step()
    if r[0] in ('error', 'panic'):
      ctx.fail(key, str(r))
      continue
    T = float(r[0])
    n = Noise(g, a, b, e, s)
    if not ctx.check(not math.isnan(T), key, 'not a number'):
      continue
    total = any_of(n.sf(M(T) - M(b)) if math.isfinite(T) else M(0), a) if T > -math.inf else M(1)
    # the distance to the value loses digits when noise is far smaller than the value
    ulp = M(b) * M('5e-16') / n.s if n.s > 0 else 0
    tol = M(t) * (M('1e-9') + 80 * ulp) + M('3e-16') * a
    ctx.check(total <= M(t) + tol, key, 'threshold %r is passed with probability %s' % (T, mp.nstr(total, 10)))
    ctx.check(total >= M(t) * (1 - M('1e-9')) - M(t)**2 * (t < 2e-10) - tol, key, 'threshold %r is larger than needed: passed with probability %s' % (T, mp.nstr(total, 10)))
    for x in (T, T * 1.5, b, 0.0, -b):
      if math.isfinite(x):
        qd.append((a, b, d, s, x, n))
  ds = ask([q('delta', G=g, L0=a, Flinf=b, Eps=e, Del=d, X=x) for a, b, d, s, x, n in qd])
  for (a, b, d, s, x, n), r in zip(qd, ds):
    if r[0] == 'absent':
      break
    key = 'delta of threshold %s eps=%g l0=%d linf=%g delta=%g threshold=%g' % ('Gaussian' if g else 'Laplace', e, a, b, d, x)
    ctx.step()
    ulp = M(b) * M('5e-16') / n.s if n.s > 0 else 0
    p = n.sf(M(x) - M(b))
    lo = any_of(p, a)
    hi = min(M(1), p * a)
    tol = M('3e-16') * a + 80 * ulp * hi + hi * M('1e-9')
    ctx.check(r[0] not in ('error', 'panic') and lo - tol <= M(r[0]) <= max(lo + tol, (hi + tol) * (p < M('2e-10'))), key, '%s, exactly %s' % (r, mp.nstr(lo, 12)))
  ctx.trace(case)


def run_keep(case, ctx):
  e, g = case['eps'], case['g']
  for kind in ('count', 'pre', 'integers', 'floats'):
    linfs = [1] if kind in ('count', 'pre') else [1, 3, 1000, 10**12]
    cs = with_sigma(case, combos(g, linfs))
    todo = [(a, b, d, s, t, p) for a, b, d, s in cs if a * b < 2**62 for t in TDS if d + t < 1 for p in ([2, 7, 2**62] if kind == 'pre' else [0])]
    ths = ask([q('threshold', G=g, L0=a, Flinf=float(b), Eps=e, Del=d, Td=t) for a, b, d, s, t, p in todo])
    qs = []
    for (a, b, d, s, t, p), r in zip(todo, ths):
      T = float(r[0])
      shift = max(p - 1, 0)
      raws = [-2**63, -2**62, -1, 0, 1, 2, 3, b, b + 1, 2**53, 2**62, 2**63 - 1]
      if abs(T) < 2**61:
        c = math.ceil(T) + shift
        raws += list(range(c - 3, c + 4))
      if T < -1e18 or T > 1e18:
        raws += [10**6]
      raws = sorted(set(x for x in raws if -2**63 <= x < 2**63))
      x = {'Op': 'keep', 'G': g, 'L0': a, 'Eps': e, 'Del': d, 'Td': t, 'Raws': raws, 'Linf': b, 'Pre': p, 'Flinf': float(b)}
      if kind == 'integers':
        x['Up'] = 1.0
      if kind == 'floats':
        x['Linf'] = 0
        x['X'] = 0.5 if abs(T) < 1e6 else 1.0
      qs.append(x)
    for (a, b, d, s, t, p), x, r, th in zip(todo, qs, ask(qs), ths):
      key = 'release of %s %s eps=%g l0=%d linf=%g delta=%g threshold delta=%g%s' % (
          kind, 'Gaussian' if g else 'Laplace', e, a, b, d, t, ' pre=%d' % p if p else '')
      ctx.state(key)
      if not ctx.check(r[0] not in ('error', 'panic'), key, str(r)):
        continue
      n = Noise(g, a, b, e, s)
      half = M(0) if kind == 'floats' else M('0.5')
      if n.s / 2**40 > 1:
        half = M(0)
      shift = max(p - 1, 0)
      T = float(th[0])
      for raw, dec in zip(x['Raws'], r):
        ctx.step()
        v = M(raw) * (M(x['X']) if kind == 'floats' else 1) - shift
        if dec == 'kept':
          p1 = any_of(n.sf(v - b - half), a)
          ctx.check(p1 <= M(t) * (1 + M('1e-8')) + M('3e-16') * a, key,
                    'noisy value %d is released; one user alone reaches it with probability %s' % (raw, mp.nstr(p1, 8)))
        else:
          ctx.check(v < T + 1.5 or abs(T) > 2**53 or abs(raw) > 2**53, key, 'noisy value %d is dropped, the threshold is %r' % (raw, T))
  ctx.trace(case)


def run_cif(case, ctx):
  e, g = case['eps'], case['g']
  cs = with_sigma(case, combos(g))
  todo = [c + (x, al) for c in cs for x in XS for al in ALPHAS]
  rs = ask([q('cif', G=g, L0=a, Flinf=b, Eps=e, Del=d, X=x, Alpha=al) for a, b, d, s, x, al in todo])
  for (a, b, d, s, x, al), r in zip(todo, rs):
    key = 'interval %s eps=%g l0=%d linf=%g delta=%g x=%g alpha=%g' % ('Gaussian' if g else 'Laplace', e, a, b, d, x, al)
    ctx.state(key)
    ctx.step()
    if not ctx.check(r[0] not in ('error', 'panic') and not math.isnan(float(r[0])) and not math.isnan(float(r[1])), key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    n = Noise(g, a, b, e, s)
    if not ctx.check(lo <= x <= up, key, 'does not contain the noisy value: %s' % r):
      continue
    for w in (M(x) - M(lo) if lo > -math.inf else M('inf'), M(up) - M(x) if up < math.inf else M('inf')):
      u = abs(M(x)) * M('3e-16')
      out = 2 * n.sf(w + u)
      inn = 2 * n.sf(w - u) if w > u else M(1)
      ctx.check(out <= M(al) * (1 + M('1e-9')) + M('4e-16'), key, '%s leaves out the value with probability %s' % (r, mp.nstr(out, 10)))
      ctx.check(inn >= M(al) * (1 - M('1e-9')) - M('4e-16'), key, '%s is wider than needed: leaves out the value with probability %s' % (r, mp.nstr(inn, 10)))
  ctx.trace(case)


def need(n, al):
  """Smallest k with P(|round(Y)| > k) <= alpha, and the exact width."""
  if n.g:
    z = mp.sqrt(2) * n.s * mp.erfinv(1 - M(al)) if al > 1e-30 else None
    if z is None:
      lo, hi = M(0), n.s * 60
      for _ in range(200):
        m = (lo + hi) / 2
        if 2 * n.sf(m) > al:
          lo = m
        else:
          hi = m
      z = hi
  else:
    z = -n.s * mp.log(M(al))
  return z


def run_cii(case, ctx):
  e, g = case['eps'], case['g']
  cs = with_sigma(case, combos(g, [1, 3, 10**6, 2**50]))
  todo = [c + (x, al) for c in cs for x in XI for al in ALPHAS]
  rs = ask([q('cii', G=g, L0=a, Linf=b, Eps=e, Del=d, Xi=x, Alpha=al) for a, b, d, s, x, al in todo])
  for (a, b, d, s, x, al), r in zip(todo, rs):
    key = 'integer interval %s eps=%g l0=%d linf=%g delta=%g x=%d alpha=%g' % ('Gaussian' if g else 'Laplace', e, a, b, d, x, al)
    ctx.state(key)
    ctx.step()
    if not ctx.check(r[0] not in ('error', 'panic') and not math.isnan(float(r[0])) and not math.isnan(float(r[1])), key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    n = Noise(g, a, b, e, s)
    if not ctx.check(lo <= x <= up, key, 'does not contain the noisy value: %s' % r):
      continue
    z = need(n, al)
    for w in (M(x) - M(lo) if lo > -math.inf else M('inf'), M(up) - M(x) if up < math.inf else M('inf')):
      if not mp.isfinite(w):
        ctx.check(al < 2e-16, key, '%s has no end' % r)
        continue
      out = 2 * n.sf(w + M('0.5'))
      ctx.check(out <= M(al) * (1 + M('1e-8')) + M('4e-16'), key, '%s leaves out the value with probability %s' % (r, mp.nstr(out, 10)))
      if al >= 1e-15:
        big = abs(M(x)) + z
        ctx.check(w <= z * (1 + M('1e-9') + (M('0.1') if al < 1e-13 else 0)) + M('0.5') + (2 * big * M('2.3e-16') if big > 2**53 else 0), key,
                  '%s is wider than %s' % (r, mp.nstr(z, 12)))
  ctx.trace(case)


BOUNDS = [(0.0, 1.0), (-2.0, 5.0), (-7.0, -3.0), (3.0, 10.0), (-1.0, 0.0)]


def run_ci(case, ctx):
  e, g = case['eps'], case['g']
  qs = []
  for a in (1, 3):
    for al in (1e-6, 0.05, 0.5, 0.95):
      for d in ([1e-5] if g else [0.0]):
        base = {'Op': 'ci', 'G': g, 'L0': a, 'Eps': e, 'Del': d, 'Alpha': al}
        for off in (-1e6, -50, -3, 0, 3, 50, 1e6):
          qs.append(dict(base, X=0, Xi=int(off)))
          for lo, up in BOUNDS:
            qs.append(dict(base, X=1, Xi=int(off), Lo=lo, Up=up))
            qs.append(dict(base, X=2, Off=off, Lo=lo, Up=up))
            if al in (0.05, 0.5):
              for cnt in (-3, 0, 1, 2, 40, 10**6):
                qs.append(dict(base, X=3, Off=off, Xi=cnt, Lo=lo, Up=up))
  for x, r in zip(qs, ask(qs)):
    kind = ['count', 'sum of integers', 'sum of floats', 'mean'][x['X']]
    key = 'interval of %s %s eps=%g l0=%d alpha=%g bounds=%s count=%s noise=%s' % (
        kind, 'Gaussian' if g else 'Laplace', e, x['L0'], x['Alpha'], (x.get('Lo'), x.get('Up')), x.get('Xi'), x.get('Off'))
    ctx.state(key)
    ctx.step()
    if not ctx.check('error' not in r and 'panic' not in r, key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    if kind == 'mean':
      res, best = float(r[2]), float(r[3])
      ctx.check(x['Lo'] <= lo <= up <= x['Up'], key, '%s outside the bounds' % r)
      ctx.check(r[4] == 'yes', key, '%s contains no interval of the documented family' % r)
      ctx.check(up - lo <= best * (1 + 1e-9) + 1e-9, key, '%s is wider than the best of the family' % r)
      ctx.check(lo - 1e-9 <= res <= up + 1e-9, key, '%s does not contain the result' % r)
      continue
    nlo, nup = float(r[2]), float(r[3])
    L, U = x.get('Lo', 0.0), x.get('Up', 1.0)
    if kind == 'count' or L >= 0:
      nlo, nup = max(0.0, nlo), max(0.0, nup)
    elif U <= 0:
      nlo, nup = min(0.0, nlo), min(0.0, nup)
    ctx.check(lo == nlo and up == nup, key, '%s, the noise says [%r, %r] within the range' % (r, nlo, nup))
  ctx.trace(case)


def run(case, ctx):
  globals()['run_' + case['op']](case, ctx)
