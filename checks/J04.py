"""Noise calibration, thresholds and confidence intervals of the Java library."""
import math

import mpmath as mp

from checks import G04
from checks.G04 import M, Noise, any_of, delta_of
from mc import javabin

PROPERTY = 'J04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of parameters and of noisy outcomes on the real Java code against exact distributions'
RULE = '''for every combination of epsilon, delta, sensitivities, threshold delta and confidence level of a grid reaching to the ends of the number
formats: the Gaussian deviation chosen really gives (epsilon, delta) by the exact formula and is not larger than needed; quantiles and distribution functions of
the noises are the exact ones and inverse to each other; the chance that the count of one user passes the threshold in any of its partitions (the noise of
integers being rounded) is at most the threshold delta, decided on every noisy outcome around the threshold and at the ends of the integers; confidence intervals
of the noises and of counts, sums and means cover the true value with the stated probability, are not wider than needed, and respect the range of the aggregate'''
ASSUMPTIONS = ['noise distributed as J05 establishes, with the continuous limit of its granularity (2^-40 of the scale)', 'the generator of value classes and some annotations replaced by stand-ins']


def setup(tier):
  javabin.build()


teardown = javabin.clean
EPS, DELS, LINFS, TDS, ALPHAS, XS, XI = G04.EPS, G04.DELS, G04.LINFS, G04.TDS, G04.ALPHAS, G04.XS, G04.XI
L0S = [1, 2, 4, 7, 100, 10**9]
RANKS = [1e-300, 1e-100, 1e-17, 1e-12, 1e-6, 0.01, 0.25, 0.499999999, 0.5, 0.5000001, 0.75, 0.99, 1 - 1e-9, 1 - 2.0**-53]
ERF = M('1e-15')  # absolute accuracy of the error function and its inverse


PAIRS = [(1, 1.0), (1, 1e200), (2, 3.0), (4, 12345.678), (7, 1e-6), (100, 1.0), (10**9, 1e-200)]
DEEP = [False]


def cases(tier):
  for c in cases_(tier):
    yield dict(c, deep=tier != 'quick')


def cases_(tier):
  for e in EPS:
    yield {'op': 'sigma', 'eps': e}
    for g in (False, True):
      if g and not 1e-6 <= e <= 50:
        continue
      for op in ('quantile', 'keep', 'cif', 'cii'):
        yield {'op': op, 'eps': e, 'g': g}
      if 1e-3 <= e <= 10:
        yield {'op': 'ci', 'eps': e, 'g': g}


def q(op, g=False, **kw):
  return [op] + (['g'] if g else []) + [(k, v) for k, v in kw.items() if v is not None]


def bad(r):
  return not r or r[0] in ('error', 'panic')


def sigmas(eps, todo):
  return [math.nan if bad(x) else float(x[0]) for x in javabin.ask([q('sigma', l0=a, linf=b, eps=eps, **{'del': d}) for a, b, d in todo])]


def run_sigma(case, ctx):
  e = case['eps']
  todo = [(a, b, d) for a in L0S for b in LINFS for d in DELS]
  for (a, b, d), s in zip(todo, sigmas(e, todo)):
    key = 'sigma eps=%g l0=%d linf=%g delta=%g' % (e, a, b, d)
    ctx.state(key)
    ctx.step()
    l2 = M(b) * mp.sqrt(a)
    if not ctx.check(0 < s < math.inf, key, 'sigma %r' % s):
      continue
    tol = M('1e-15') if d < 1e-200 and e < 1 else M(d) * M('1e-9') + M('4e-16')
    got = delta_of(M(s), l2, M(e))
    ctx.check(got <= M(d) + tol, key, 'sigma %r gives delta %s, not %r' % (s, mp.nstr(got, 10), d))
    less = delta_of(M(s) * M('0.998'), l2, M(e))
    ctx.check(less >= M(d) - tol, key, 'sigma %r is larger than needed: 0.2%% less gives delta %s' % (s, mp.nstr(less, 10)))
  rhos = [2.0**-50, 1e-6, 0.01, 0.5, 3.0, 1e6]
  todo = [(b, r) for b in LINFS for r in rhos]
  for (b, r), x in zip(todo, javabin.ask([q('rho=%r' % r, linf=b) for b, r in todo])):
    ctx.step()
    s = M(x[0]) if not bad(x) else M(0)
    ctx.check(not bad(x) and abs(M(b)**2 / (2 * s * s) - M(r)) <= M(r) * M('1e-12'), 'sigma for rho', 'rho %r linf %r gives %s' % (r, b, x))
  ctx.trace(case)


def combos(g, linfs=None):
  """Sensitivities and delta; the quick tier takes some of the pairs of sensitivities, which act by their product alone."""
  ab = [(a, b) for a in L0S for b in linfs or LINFS]
  if not DEEP[0]:
    ab = PAIRS if linfs is None else [(a, b) for a, b in ab if a in (1, 4, 100)]
  for a, b in ab:
    for d in ([1e-15, 1e-5, 0.1] if g else [0.0]):
      yield a, b, d


def with_sigma(case, cs):
  cs = list(cs)
  if not case['g']:
    return [c + (None,) for c in cs]
  return [c + (s,) for c, s in zip(cs, sigmas(case['eps'], cs))]


def name(g):
  return 'Gaussian' if g else 'Laplace'


def run_quantile(case, ctx):
  e, g = case['eps'], case['g']
  todo = [c + (r, x) for c in with_sigma(case, combos(g)) for r in RANKS for x in (0.0, -3.7, 1e9)]
  rs = javabin.ask([q('quantile', g, l0=a, linf=b, eps=e, **{'del': d, 'r': r, 'x': x}) for a, b, d, s, r, x in todo])
  back = []
  for (a, b, d, s, r, x), o in zip(todo, rs):
    key = 'quantile %s eps=%g l0=%d linf=%g delta=%g rank=%g x=%g' % (name(g), e, a, b, d, r, x)
    ctx.state(key)
    ctx.step()
    if not ctx.check(not bad(o) and not math.isnan(float(o[0])), key, str(o)):
      continue
    z = float(o[0])
    n = Noise(g, a, b, e, s)
    if not math.isfinite(z):
      ctx.check(g and (r < 1e-15 if z < 0 else 1 - r < 1e-15), key, str(o))
      continue
    u = (abs(M(x)) + abs(M(z))) * M('4e-16')
    lo, hi = n.sf(M(x) - M(z) + u), n.sf(M(x) - M(z) - u)
    tol = ERF if g else M(0)
    ctx.check(lo <= M(r) * (1 + M('1e-9')) + tol and hi >= M(r) * (1 - M('1e-9')) - tol, key, '%s has rank %s' % (o, mp.nstr(lo, 10)))
    if not g and a == 1 and x == 0.0:
      back.append((b, z, r, n))
  if back:
    for (b, z, r, n), o in zip(back, javabin.ask([q('cdf', linf=b, eps=e, z=z, x=0.0) for b, z, r, n in back])):
      ctx.step()
      want = n.sf(-M(z))
      ctx.check(not bad(o) and abs(M(o[0]) - want) <= want * M('1e-12') + (M('3e-16') if r > 0.5 else 0), 'distribution function linf=%g eps=%g z=%r' % (b, e, z), '%s, exactly %s' % (o, mp.nstr(want, 12)))
  ctx.trace(case)


def run_keep(case, ctx):
  e, g = case['eps'], case['g']
  todo = [c + (t,) for c in with_sigma(case, combos(g, [1, 3, 10**6])) for t in TDS if c[2] + t < 1]
  qs, ts = [], []
  for a, b, d, s, t in todo:
    n = Noise(g, a, b, e, s)
    # the exact threshold, by bisection
    p = -mp.expm1(mp.log1p(-M(t)) / a)
    if g:
      lo, hi = -n.s * 60, n.s * 60
      for _ in range(100):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if n.sf(m) > p else (lo, m)
      y = hi
    else:
      y = -n.s * mp.log(2 * p) if p < 0.5 else n.s * mp.log(2 * (1 - p))
    T = b + y
    ts.append(T)
    raws = [-2**63, -2**62, -1, 0, 1, 2, 3, b, b + 1, 2**53, 2**62, 2**63 - 1]
    if abs(T) < 2**61:
      c = int(mp.ceil(T))
      raws += list(range(c - 3, c + 4))
    raws = sorted(set(x for x in raws if -2**63 <= x < 2**63))
    qs.append((raws, q('keep', g, l0=a, linf=b, eps=e, td=t, raws=','.join(map(str, raws)), **{'del': d})))
  for (a, b, d, s, t), (raws, _), r, T in zip(todo, qs, javabin.ask([x for _, x in qs]), ts):
    key = 'release of counts %s eps=%g l0=%d linf=%g delta=%g threshold delta=%g' % (name(g), e, a, b, d, t)
    ctx.state(key)
    if not ctx.check(not bad(r), key, str(r)):
      continue
    n = Noise(g, a, b, e, s)
    half = M('0.5') if n.s / 2**40 <= 1 else M(0)
    tol = (ERF if g else M('3e-16')) * a
    for raw, dec in zip(raws, r):
      ctx.step()
      if dec == 'kept':
        p1 = any_of(n.sf(M(raw) - b - half), a)
        p0 = any_of(n.sf(M(raw) - b), a)
        ctx.check(p1 <= M(t) * (1 + M('1e-8')) + tol, 'threshold of integers ignores rounding' if p0 <= M(t) * (1 + M('1e-8')) + tol else key,
                  '%s: noisy count %d is released; one user alone reaches it with probability %s' % (key, raw, mp.nstr(p1, 8)))
      else:
        p2 = any_of(n.sf(M(raw) - b - M('1.5')), a)
        ctx.check(raw < T + M('1.5') or abs(T) > 2**53 or abs(raw) > 2**53 or p2 >= M(t) * (1 - M('1e-8')) - tol, key, 'noisy count %d is dropped, the threshold is %s' % (raw, mp.nstr(T, 12)))
  ctx.trace(case)


def run_cif(case, ctx):
  e, g = case['eps'], case['g']
  todo = [c + (x, al) for c in with_sigma(case, combos(g)) for x in XS for al in ALPHAS]
  rs = javabin.ask([q('cif', g, l0=a, linf=b, eps=e, x=x, alpha=al, **{'del': d}) for a, b, d, s, x, al in todo])
  for (a, b, d, s, x, al), r in zip(todo, rs):
    key = 'interval %s eps=%g l0=%d linf=%g delta=%g x=%g alpha=%g' % (name(g), e, a, b, d, x, al)
    ctx.state(key)
    ctx.step()
    if not ctx.check(not bad(r) and not math.isnan(float(r[0])) and not math.isnan(float(r[1])), key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    n = Noise(g, a, b, e, s)
    if not ctx.check(lo <= x <= up, key, 'does not contain the noisy value: %s' % r):
      continue
    tol = 2 * ERF if g else M('4e-16')
    for w in (M(x) - M(lo) if lo > -math.inf else M('inf'), M(up) - M(x) if up < math.inf else M('inf')):
      u = abs(M(x)) * M('3e-16')
      out = 2 * n.sf(w + u)
      inn = 2 * n.sf(w - u) if w > u else M(1)
      ctx.check(out <= M(al) * (1 + M('1e-9')) + tol, key, '%s leaves out the value with probability %s' % (r, mp.nstr(out, 10)))
      ctx.check(inn >= M(al) * (1 - M('1e-9')) - tol, key, '%s is wider than needed: leaves out the value with probability %s' % (r, mp.nstr(inn, 10)))
  ctx.trace(case)


def run_cii(case, ctx):
  e, g = case['eps'], case['g']
  todo = [c + (x, al) for c in with_sigma(case, combos(g, [1, 3, 10**6, 2**50])) for x in XI for al in ALPHAS]
  rs = javabin.ask([q('cii', g, l0=a, linf=b, eps=e, xi=x, alpha=al, **{'del': d}) for a, b, d, s, x, al in todo])
  for (a, b, d, s, x, al), r in zip(todo, rs):
    key = 'integer interval %s eps=%g l0=%d linf=%g delta=%g x=%d alpha=%g' % (name(g), e, a, b, d, x, al)
    ctx.state(key)
    ctx.step()
    if not ctx.check(not bad(r) and not math.isnan(float(r[0])) and not math.isnan(float(r[1])), key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    n = Noise(g, a, b, e, s)
    if not ctx.check(lo <= x <= up, key, 'does not contain the noisy value: %s' % r):
      continue
    z = G04.need(n, al)
    tol = 2 * ERF if g else M('4e-16')
    for w in (M(x) - M(lo) if lo > -math.inf else M('inf'), M(up) - M(x) if up < math.inf else M('inf')):
      if not mp.isfinite(w):
        ctx.check(al < 2e-15, key, '%s has no end' % r)
        continue
      out = 2 * n.sf(w + M('0.5'))
      ctx.check(out <= M(al) * (1 + M('1e-8')) + tol, key, '%s leaves out the value with probability %s' % (r, mp.nstr(out, 10)))
      if al > 1e-14:
        big = abs(M(x)) + z
        ctx.check(w <= z * (1 + M('1e-9')) + M('0.5') + (2 * big * M('2.3e-16') if big > 2**53 else 0), key, '%s is wider than %s' % (r, mp.nstr(z, 12)))
  ctx.trace(case)


def run_ci(case, ctx):
  e, g = case['eps'], case['g']
  qs = []
  for a in (1, 3):
    for al in (1e-6, 0.05, 0.5, 0.95):
      base = dict(l0=a, eps=e, alpha=al, **({'del': 1e-5} if g else {}))
      for off in (-1e6, -50.0, -3.0, 0.0, 3.0, 50.0, 1e6):
        qs.append(dict(base, kind=0, xi=int(off)))
        for lo, up in G04.BOUNDS:
          qs.append(dict(base, kind=1, xi=int(off), lo=lo, up=up))
          qs.append(dict(base, kind=2, off=off, lo=lo, up=up))
          if al in (0.05, 0.5):
            for cnt in (-3, 0, 1, 2, 40, 10**6):
              qs.append(dict(base, kind=3, off=off, xi=cnt, lo=lo, up=up))
  for x, r in zip(qs, javabin.ask([q('ci', g, **x) for x in qs])):
    kind = ['count', 'sum of integers', 'sum of floats', 'mean'][x['kind']]
    key = 'interval of %s %s eps=%g l0=%d alpha=%g bounds=%s count=%s noise=%s' % (kind, name(g), e, x['l0'], x['alpha'], (x.get('lo'), x.get('up')), x.get('xi'), x.get('off'))
    ctx.state(key)
    ctx.step()
    if not ctx.check(not bad(r), key, str(r)):
      continue
    lo, up = float(r[0]), float(r[1])
    if kind == 'mean':
      res, best = float(r[2]), float(r[3])
      ctx.check(x['lo'] <= lo <= up <= x['up'], key, '%s outside the bounds' % r)
      ctx.check(r[4] == 'yes', key, '%s contains no interval of the documented family' % r)
      ctx.check(up - lo <= best * (1 + 1e-9) + 1e-9, key, '%s is wider than the best of the family' % r)
      ctx.check(lo - 1e-9 <= res <= up + 1e-9, key, '%s does not contain the result' % r)
      continue
    nlo, nup = float(r[2]), float(r[3])
    lower, upper = x.get('lo', 0.0), x.get('up', 1.0)
    if kind == 'count' or lower >= 0:
      nlo, nup = max(0.0, nlo), max(0.0, nup)
    elif upper <= 0:
      nlo, nup = min(0.0, nlo), min(0.0, nup)
    ctx.check(lo == nlo and up == nup, key, '%s, the noise says [%r, %r] within the range' % (r, nlo, nup))
  ctx.trace(case)


def run(case, ctx):
  DEEP[0] = case['deep']
  globals()['run_' + case['op']](case, ctx)
