"""Composed loss distributions bracket the exact loss of finite mechanisms."""
import itertools
import math

from mc import pl

PROPERTY = 'L01'
LEVEL = 'model_checking'
RULE = '''every pair of distributions with probabilities on a lattice over up to 3 outcomes, composed with itself every
number of times of a ladder; every composition tree of up to 3 leaves over a menu of pairs with every truncation bound;
both estimates, several intervals, both representations; every delta compared with exact multinomial enumeration'''
ASSUMPTIONS = ['floating-point slack 1e-10 absolute', 'probabilities are multiples of 1/n, at most 3 outcomes']

EPS = [-6.0, -2.5, -1.0, -0.45, -0.1, 0.0, 1e-9, 0.07, 0.25, 0.31, 0.5, 0.7, 1.0, 1.0986122886681098, 1.5, 2.0, 3.1, 5.0,
       9.0, 40.0]
TAU = [0, 1e-15, 1e-4, 0.05, 0.5]
TAUS = [0, 1e-15, 0.05]
TOL = 1e-10

MENU = [((0.5, 0.5), (0.5, 0.5)), ((0.75, 0.25), (0.25, 0.75)), ((0.5, 0.25, 0.25), (0.25, 0.25, 0.5)),
        ((0.9, 0.1, 0.0), (0.6, 0.3, 0.1)), ((0.2, 0.8), (0.0, 1.0)), ((1.0, 0.0), (0.0, 1.0)),
        ((0.001, 0.999), (0.002, 0.998)), ((0.1, 0.2, 0.7), (0.7, 0.2, 0.1)), ((0.999999, 1e-6), (1e-6, 0.999999))]


def cases(tier):
  thorough = tier == 'thorough'
  n = 6 if thorough else 4
  for i, _ in enumerate(pl.simplex(n, 3)):
    yield {'k': 'self', 'n': n, 'i': i, 'reps': [1, 2, 3, 8, 20] + ([5, 60, 150] if thorough else [])}
  hs = [0.25, 0.07] if not thorough else [1.0, 0.25, 0.1, 0.07, 0.013]
  for h in hs:
    for pess in (True, False):
      for a, b in itertools.combinations_with_replacement(range(len(MENU)), 2):
        yield {'k': 'tree', 'leaves': [a, b], 'h': h, 'pess': pess, 'reps': [1, 2, 9], 'full': thorough}
      for a in range(len(MENU)) if thorough or h == hs[0] else []:
        yield {'k': 'tree3', 'a': a, 'h': h, 'pess': pess}


def compare(ctx, key, pld, rem, add, h, k, tau, pess):
  """k: number of roundings on a path (leaf runs), tau: total truncation."""
  for e in EPS:
    got = float(pld.get_delta_for_epsilon(e))
    f = lambda x: max(rem(x), add(x)) if add is not None else rem(x)
    ctx.step()
    if pess:
      lo, hi = f(e), f(e - k * h) + tau
    else:
      lo, hi = f(e + k * h) - tau, f(e) + tau
    ctx.check(lo - TOL <= got <= hi + TOL, key, 'delta(%g) = %.15g not in [%.15g, %.15g]' % (e, got, lo, hi))


def leaf(pair, h, pess, form, trunc=-math.inf):
  P, Q = pair
  x = pl.from_pair(P, Q, h, pess, form in ('sym', 'sdense'), trunc)
  return pl.dense(x) if 'dense' in form else x


def run(case, ctx):
  if case['k'] == 'self':
    n = case['n']
    lat = pl.simplex(n, 3)
    P = [x / n for x in lat[case['i']]]
    for ql in lat:
      Q = [x / n for x in ql]
      pair = (P, Q)
      for reps in case['reps']:
        rem, add = pl.Exact(pl.power_atoms(P, Q, reps)), pl.Exact(pl.power_atoms(Q, P, reps))
        for form in ('asym', 'dense', 'sym'):
          for pess in (True, False):
            h = 0.25 if reps % 2 else 0.07
            x = leaf(pair, h, pess, form)
            for tau in TAUS if reps > 1 else [None]:
              y = x if tau is None else x.self_compose(reps, tau)
              key = 'P=%s Q=%s reps=%d form=%s pess=%s h=%g tau=%s' % (lat[case['i']], ql, reps, form, pess, h, tau)
              compare(ctx, key, y, rem, None if form == "sym" else add, h, reps, 3 * (tau or 0), pess)
              ctx.trace()
        ctx.state((n, case['i'], ql, reps))
      # truncating rare outcomes while building
      if case['i'] % 3 == 0:
        for bound in (math.log(0.1), math.log(0.3), math.log(0.6)):
          for pess in (True, False):
            x = leaf(pair, 0.1, pess, 'asym', bound)
            slack = 3 * math.exp(bound)
            compare(ctx, 'P=%s Q=%s pess=%s rare outcomes below %g' % (lat[case['i']], ql, pess, bound), x,
                    pl.Exact(pl.atoms(P, Q)), pl.Exact(pl.atoms(Q, P)), 0.1, 1, slack, pess)
    ctx.trace({'P': P, 'Q': 'every lattice point'})
    return
  h, pess = case['h'], case['pess']
  forms = ['asym', 'dense', 'sym']
  if case['k'] == 'tree':
    a, b = case['leaves']
    for fa, fb in itertools.product(forms, forms):
      for reps in case['reps']:
        taus = TAU if case['full'] else TAUS
        for t1, t2 in itertools.product(taus, taus):
          if reps == 1 and t1 != 0:
            continue
          x, y = leaf(MENU[a], h, pess, fa), leaf(MENU[b], h, pess, fb)
          if reps > 1:
            x = x.self_compose(reps, t1)
          z = x.compose(y, t2)
          cnt = [(a, fa, reps), (b, fb, 1)]
          key = 'h=%g pess=%s compose(%d x %s %s tau=%s, %s %s) tau=%s' % (
              h, pess, reps, MENU[a], fa, t1, MENU[b], fb, t2)
          check_tree(ctx, key, z, cnt, h, 3 * (t1 if reps > 1 else 0) + 3 * t2, pess)
  else:
    a = case['a']
    for b, c in itertools.product(range(len(MENU)), repeat=2):
      for fa, fb, fc in itertools.product(forms[:2], repeat=3):
        for t in TAUS:
          x, y, z = leaf(MENU[a], h, pess, fa), leaf(MENU[b], h, pess, fb), leaf(MENU[c], h, pess, fc)
          w = x.compose(y.compose(z, t), t)
          key = 'h=%g pess=%s %s %s o (%s %s o %s %s) tau=%s' % (h, pess, MENU[a], fa, MENU[b], fb, MENU[c], fc, t)
          check_tree(ctx, key, w, [(a, fa, 1), (b, fb, 1), (c, fc, 1)], h, 6 * t, pess)


_CACHE = {}


def exact(cnt, flip):
  k = (tuple(sorted((i, f in ('sym', 'sdense'), n) for i, f, n in cnt)), flip)
  if k not in _CACHE:
    cur = [(0.0, 1.0)]
    for i, sym, n in k[0]:
      P, Q = MENU[i]
      at = pl.power_atoms(P, Q, n) if (sym or not flip) else pl.power_atoms(Q, P, n)
      cur = [(l + m, p * q) for l, p in cur for m, q in at]
    _CACHE[k] = pl.Exact(cur)
  return _CACHE[k]


def check_tree(ctx, key, pld, cnt, h, tau, pess):
  compare(ctx, key, pld, exact(cnt, False), exact(cnt, True), h, sum(n for _, _, n in cnt), tau, pess)
  ctx.trace()
  ctx.state(key)
