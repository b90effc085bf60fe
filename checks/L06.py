"""Numeric building blocks of loss composition are exact within their bounds."""
import itertools
import math

import numpy as np

from dp_accounting.pld import common
from dp_accounting.pld import pld_pmf
from mc import pl

PROPERTY = 'L06'
LEVEL = 'model_checking'
RULE = '''every mass list up to a length over a probability lattice (zeros included), times every repetition count up to a
bound and every truncation bound of a menu; every dictionary over a key range; every delta ladder on a lattice, valid
or not, over every set of support points of a menu'''
ASSUMPTIONS = ['floating-point slack 1e-12']
TOL = 1e-12
TAU = [0, 1e-15, 1e-9, 1e-3, 0.1, 0.5]
ORDERS = [None, [1.0], [-1.0], [-0.3, 0.3], [0.05, 2.0, -2.0, -0.05], [-10., 10.]]


def cases(tier):
  t = tier == 'thorough'
  for length in range(1, 5 if not t else 6):
    for i in range(len(pl.simplex(4, length + 1))):
      yield {'k': 'conv', 'len': length, 'i': i, 'top': 24 if not t else 60}
  for i in range(3**5):
    yield {'k': 'dict', 'i': i}
  n = 5 if not t else 7
  for k in range(1, 5 if not t else 6):
    for first in range(-1, n + 2):
      yield {'k': 'dots', 'n': n, 'len': k, 'first': first}


def run(case, ctx):
  {'conv': run_conv, 'dict': run_dict, 'dots': run_dots}[case['k']](case, ctx)


def run_conv(case, ctx):
  t = pl.simplex(4, case['len'] + 1)[case['i']]
  lst = [x / 4 for x in t[:-1]]  # the rest is mass elsewhere
  if not any(lst):
    return
  variants = [lst]
  if case['i'] % 4 == 1 or case['top'] >= 60:
    variants.append([x * 0.999 + 0.001 / len(lst) for x in lst])
    variants.append([x * 1e-7 for x in lst])
  for lst in variants:
    exact = np.array([1.0])
    for n in range(1, case['top'] + 1):
      exact = np.convolve(exact, lst)
      if n > 7 and n % 6 and case['top'] < 60:
        continue
      for tau in TAU:
        key = '%s times %d tau=%g' % (lst, n, tau)
        for orders in ORDERS if tau else ORDERS[:2]:
          lo, hi = common.compute_self_convolve_bounds(lst, n, tau, orders)
          ctx.step()
          keep = exact[max(0, lo):max(0, hi + 1)].sum() if hi >= lo else 0.0
          out = exact.sum() - keep
          ctx.check(out <= tau + TOL and isinstance(lo, int) and isinstance(hi, int), key,
                    'bounds [%d, %d] with orders %s leave out mass %.3g' % (lo, hi, orders, out))
        off, res = common.self_convolve(lst, n, tau)
        ctx.step()
        got = {off + i: x for i, x in enumerate(res)}
        bad = [k for k in set(got) | set(range(len(exact)))
               if abs(got.get(k, 0) - (exact[k] if 0 <= k < len(exact) else 0)) > tau + TOL]
        ctx.check(not bad, key, 'self_convolve wrong at %s' % bad[:3])
        ctx.check(abs(sum(res) - exact.sum()) <= tau + TOL, key, 'mass %r, expected %r' % (sum(res), exact.sum()))
        for start in (-3, 0, 5) if case['top'] >= 60 else (-3,):
          d = {start + i: x for i, x in enumerate(lst) if x or i == 0}
          got = common.self_convolve_dictionary(d, n, tau)
          ctx.step()
          bad = [k for k in set(got) | set(range(start * n, start * n + len(exact)))
                 if abs(got.get(k, 0) - (exact[k - start * n] if 0 <= k - start * n < len(exact) else 0)) > tau + TOL]
          ctx.check(not bad, key, 'self_convolve_dictionary from %d wrong at %s' % (start, bad[:3]))
      ctx.state((case['len'], case['i'], n))
      ctx.trace()
  ctx.trace({'list': lst})


def run_dict(case, ctx):
  vals = (None, 0.0, 0.2)
  digits = [(case['i'] // 3**k) % 3 for k in range(5)]
  d = {k - 2: vals[x] * (1 + k / 7) for k, x in enumerate(digits) if vals[x] is not None}
  if not d:
    return
  key = 'dictionary %s' % d
  off, lst = common.dictionary_to_list(dict(d))
  ctx.step()
  ctx.check(off == min(d) and len(lst) == max(d) - min(d) + 1 and all(lst[i] == d.get(off + i, 0) for i in range(len(lst))),
            key, 'to list: %s at %d' % (lst, off))
  for tau in TAU + [0.25, 0.41, 0.9]:
    for noise in (0.0, -1e-18, 1e-19):
      arr = [x + noise for x in lst]
      got = common.list_to_dictionary(arr, off, tau)
      ctx.step()
      pos = [(off + i, x) for i, x in enumerate(arr) if x > 0]
      kept = [k for k, _ in pos if k in got]
      ok = set(got) <= set(k for k, _ in pos) and all(got[k] == x for k, x in pos if k in got)
      left = [x for k, x in pos if not kept or k < kept[0]]
      right = [x for k, x in pos if kept and k > kept[-1]]
      inner = [k for k, _ in pos if kept and kept[0] < k < kept[-1] and k not in got]
      if not kept:  # everything went: it must fit in the two tails
        ok = ok and math.fsum(left) <= tau + TOL
      else:
        ok = ok and not inner and math.fsum(left) <= tau / 2 + TOL and math.fsum(right) <= tau / 2 + TOL
      ctx.check(ok, key, 'list to dictionary, tau=%g: %s' % (tau, got))
  for j in range(3**5):
    e = {k - 2: vals[(j // 3**k) % 3] for k in range(5) if vals[(j // 3**k) % 3] is not None}
    if not e:
      continue
    want = {}
    for a, p in d.items():
      for b, q in e.items():
        want[a + b] = want.get(a + b, 0.0) + p * q
    for tau in (0, 1e-9, 0.1):
      got = common.convolve_dictionary(dict(d), dict(e), tau)
      ctx.step()
      wrong = [k for k in got if abs(got[k] - want.get(k, 0)) > TOL]
      lost = math.fsum(p for k, p in want.items() if k not in got)
      ctx.check(not wrong and lost <= tau + TOL, key + ' with %s' % e, 'convolution %s, direct sum %s' % (got, want))
    ctx.trace()
  ctx.state(key)
  ctx.trace({'dictionary': repr(d)})


SUPPORTS = [lambda k: list(range(-1, k - 1)), lambda k: list(range(0, k)), lambda k: [3 * i - 4 for i in range(k)],
            lambda k: [i * i + i // 2 for i in range(k)], lambda k: [-k + i + 400 * (i == k - 1) for i in range(k)],
            lambda k: [1] * k, lambda k: list(range(k, 0, -1))]


def run_dots(case, ctx):
  n, k = case['n'], case['len']
  values = list(range(-1, n + 2)) if k <= 3 else list(range(0, n + 1))
  if case['first'] not in values:
    return
  for rest in itertools.product(values, repeat=k - 1):
    ladder = [x / n for x in (case['first'],) + rest]
    for h in (0.5, 0.01, 3.0) if k < 4 else (0.5,):
      for si, sup in enumerate(SUPPORTS):
        eps = sup(k)
        valid_eps = all(a < b for a, b in zip(eps, eps[1:]))
        valid = valid_eps and all(0 <= x <= 1 for x in ladder) and all(a >= b for a, b in zip(ladder, ladder[1:]))
        key = 'deltas %s at %s times %g' % (ladder, eps, h)
        forms = [('general', lambda: pld_pmf.create_pmf_pessimistic_connect_dots(h, eps, ladder))]
        if eps == list(range(eps[0], eps[0] + k)):
          forms.append(('fixed gap', lambda: pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(h, eps[0], eps[-1], ladder)))
        if not valid and valid_eps and si > 1 and h != 0.5:
          continue
        for name, f in forms:
          ctx.step()
          try:
            x = f()
          except ValueError:
            ctx.check(not valid, key, '%s: rejected' % name)
            continue
          if not valid:
            ctx.fail(key, '%s: accepted' % name)
            continue
          dots(ctx, key + ' ' + name, x, eps, ladder, h)
          ctx.trace()
    ctx.state((tuple(ladder)))
  # lengths that do not match
  for m in (0, k + 1):
    for f in (lambda: pld_pmf.create_pmf_pessimistic_connect_dots(0.1, list(range(k)), [0.1] * m),
              lambda: pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(0.1, 0, k - 1, [0.1] * m),
              lambda: pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(0.1, 3, 2, [0.1] * m),
              lambda: pld_pmf.create_pmf_pessimistic_connect_dots(0.1, [], [])):
      try:
        f()
        ctx.fail('connect dots with %d points and %d deltas' % (k, m), 'accepted')
      except ValueError:
        pass


def dots(ctx, key, x, eps, ladder, h):
  pts = [(0.0, 1.0)] + [(math.exp(e * h) if e * h < 700 else math.inf, d) for e, d in zip(eps, ladder)]
  if pts[-1][0] == math.inf:
    pts, tail = pts[:-1], ladder[-1]
  slope = [(b[1] - a[1]) / (b[0] - a[0]) for a, b in zip(pts, pts[1:])]
  convex = all(s <= t + 1e-12 * abs(s) for s, t in zip(slope, slope[1:]))
  for e, d in zip(eps, ladder):
    got = float(x.get_delta_for_epsilon(e * h))
    ctx.check(got >= d - TOL, key, 'delta(%g) = %r below the given %r' % (e * h, got, d))
    if convex:
      ctx.check(got <= d + TOL, key, 'delta(%g) = %r above the given %r' % (e * h, got, d))
  for a, b in zip(pts, pts[1:]):
    for w in (0.1, 0.5, 0.9):
      y = a[0] * (1 - w) + b[0] * w
      want = a[1] * (1 - w) + b[1] * w
      got = float(x.get_delta_for_epsilon(math.log(y)))
      ctx.check(got >= want - TOL, key, 'delta(%g) = %r below the interpolation %r' % (math.log(y), got, want))
      if convex:
        ctx.check(got <= want + TOL, key, 'delta(%g) = %r above the interpolation %r' % (math.log(y), got, want))
  got = float(x.get_delta_for_epsilon(eps[-1] * h + 1))
  ctx.check(abs(got - ladder[-1]) <= TOL, key, 'delta beyond the support = %r, last given %r' % (got, ladder[-1]))
