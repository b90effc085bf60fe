"""Same mechanisms, different histories: the accounted loss must agree."""
import itertools
import math

import numpy as np

from mc import dp

PROPERTY = 'A01'
LEVEL = 'model_checking'
RULE = '''all multisets of leaf mechanisms up to the size bound, all their orders, all ways to cut an order into
compose calls and to write each call as composed / self-composed / counted events; besides, each mechanism
at boundary parameters (no noise, sampling probability 0 and 1, one bucket, full batch) run n times in every way'''
ASSUMPTIONS = ['Renyi losses agree to relative 1e-9; PLD losses agree to the discretization error of the '
               'composed mechanisms (a Gaussian run n times may be discretized once or n times)']

EPS = [0.0, 0.3, 1.0, 2.0, 5.0]
DELTAS = [1e-6, 1e-2]
H = 0.1
ORDERS = [1.5, 2.0, 6.0]

G, G2, Gi = ['G', 1.3], ['G', 2.5], ['G', 2]
L = ['L', 1.7]
PSG, PSL = ['PS', 0.3, ['G', 1.1]], ['PS', 0.4, ['L', 1.5]]
M = ['M', 1.2, [0.0, 1.0, 2.0], [0.5, 0.3, 0.2]]
RR, RR3 = ['RR', 0.5, 2], ['RR', 0.3, 3]
WOR = ['WOR', 10, 3, ['G', 1.5]]
T = ['T', 2.0, [3, 5]]
RP = ['RP', ['G', 3.0], 4.0, 1]
RPp = ['RP', ['L', 4.0], 3.0, 'inf']
PSC = ['PS', 0.3, ['C', [['G', 2.0], ['S', ['G', 3], 2]]]]

MENU = {
    ('RDP', 'AR'): [G, L, PSG, RP, PSC, RPp, Gi],
    ('RDP', 'RO'): [G, L, RR, WOR, RP, RR3],
    ('RDP', 'RS'): [G, RR3, T, PSG, L, RPp],
    ('PLD', 'AR'): [G, L, PSG, PSL, M],
    ('PLD', 'RO'): [G, L, RR, RR3],
    ('PLD', 'RS'): [G, RR3, PSL, RR, M],
}


def forms(seq, depth):
  """Events that run exactly `seq`, as descriptors."""
  n = len(seq)
  out = []
  if n == 1:
    out.append(seq[0])
    if depth > 0:
      out += [['C', [seq[0]]], ['S', seq[0], 1], ['C', ['NOOP', seq[0]]]]
    return out
  if depth == 0:
    return [['C', list(seq)]]
  for per in range(1, n):
    if n % per == 0 and all(seq[i] == seq[i % per] for i in range(n)):
      for f in forms(seq[:per], 0 if per == 1 else depth - 1):
        out.append(['S', f, n // per])
        if per == 1 and n == 4:
          out.append(['S', ['S', f, 2], 2])
  for cut in compositions(n):
    if len(cut) == 1:
      continue
    parts, i = [], 0
    for c in cut:
      parts.append(seq[i:i + c])
      i += c
    if depth > 1:
      sub = [forms(p, depth - 1)[:3] if len(p) > 1 else [p[0]] for p in parts]
    else:
      sub = [[['C', list(p)]] if len(p) > 1 else [p[0]] for p in parts]
    for combo in itertools.product(*sub):
      out.append(['C', list(combo)])
  return out


def compositions(n):
  if n == 0:
    yield ()
    return
  for k in range(1, n + 1):
    for r in compositions(n - k):
      yield (k,) + r


def programs(seq, depth):
  """Lists of (event descriptor, count) calls running exactly `seq`."""
  n = len(seq)
  for cut in compositions(n):
    parts, i = [], 0
    for c in cut:
      parts.append(seq[i:i + c])
      i += c
    opts = []
    for p in parts:
      o = [(f, 1) for f in forms(p, depth if len(cut) == 1 else max(0, depth - 1))]
      for per in range(1, len(p)):
        if len(p) % per == 0 and all(p[i] == p[i % per] for i in range(len(p))):
          o += [(f, len(p) // per) for f in forms(p[:per], 0)]
      opts.append(o)
    yield from itertools.product(*opts)


def cases(tier):
  out = []
  for (kind, rel), menu in MENU.items():
    size = 3 if tier == 'quick' else 4
    for k in range(1, size + 1):
      for ms in itertools.combinations_with_replacement(range(len(menu)), k):
        out.append({'kind': kind, 'rel': rel, 'ms': list(ms),
                    'depth': 2 if tier == 'thorough' or k <= 2 else 1})
    if tier == 'quick':  # longer runs of one or two mechanisms
      for a in range(len(menu)):
        out.append({'kind': kind, 'rel': rel, 'ms': [a] * 4,
                    'depth': 1 if menu[a][0] == 'M' else 2})
        b = (a + 1) % len(menu)
        out.append({'kind': kind, 'rel': rel, 'ms': [a, a, b, b], 'depth': 0})
  for (kind, rel), menu in SWEEP.items():
    for i in range(len(menu)):
      for n in (2, 3, 6) if tier == 'quick' else (2, 3, 4, 5, 6, 8, 12):
        out.append({'kind': kind, 'rel': rel, 'sweep': i, 'n': n})
  for i in range(len(INNER)):
    for k in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
      for ms in itertools.combinations_with_replacement(range(3), k):
        out.append({'inner': i, 'ms': list(ms)})
  return out


# One mechanism at ordinary and extreme parameters, run n times in every way.
SWEEP = {
    ('RDP', 'AR'): [['G', 0.0], ['G', 1e-3], ['G', 50.0], ['L', 0.0], ['L', 30.0], ['PS', 0.0, ['G', 2.0]],
                    ['PS', 1.0, ['G', 2.0]], ['PS', 1, ['G', 2]], ['PS', 1e-4, ['G', 0.7]],
                    ['PS', 0.3, ['G', 0.0]], ['PS', 0.0, ['G', 0.0]], ['RP', ['G', 3.0], 1, 'inf'], ['RP', ['G', 3.0], 1, 0],
                    ['RP', ['G', 3.0], 2.0, 0.5], ['RP', ['S', ['L', 9.0], 3], 2.0, 0], 'NP'],
    ('RDP', 'RO'): [['WOR', 10, 0, ['G', 1.5]], ['WOR', 10, 10, ['G', 1.5]], ['WOR', 1000, 1, ['G', 1.5]],
                    ['WOR', 10, 3, ['C', [['G', 3.0], ['G', 2]]]], ['RR', 0.0, 2], ['RR', 1.0, 3],
                    ['RR', 1, 1], ['RR', 0.9, 50], ['G', 0.0], ['L', 0], 'NP'],
    ('RDP', 'RS'): [['PS', 1.0, ['G', 2.0]], ['PS', 0.01, ['G', 2.0]], ['RR', 0.0, 2], ['RR', 1.0, 3],
                    ['RR', 0.9, 50], ['T', 3.0, [4, 7]], ['T', 3.0, 1], ['T', 3.0, 9],
                    ['T', 3.0, [1, 8]], ['T', 0.0, 5], 'NP'],
    ('PLD', 'AR'): [['G', 0.0], ['G', 60.0], ['L', 0.0], ['L', 30.0], ['PS', 0.0, ['G', 2.0]],
                    ['PS', 1.0, ['G', 2.0]], ['PS', 1, ['L', 2]], ['PS', 1e-3, ['G', 0.7]],
                    ['PS', 1e-3, ['L', 0.7]], ['PS', 0.3, ['G', 0.0]], ['PS', 0.0, ['L', 0.0]],
                    ['M', 2.0, [0.0], [1.0]], ['M', 2.0, [1.0], [1.0]], ['M', 2, [0, 1], [0.7, 0.3]],
                    ['M', 0.0, [0.0, 1.0], [0.5, 0.5]], 'NP'],
    ('PLD', 'RO'): [['RR', 0.0, 2], ['RR', 1.0, 3], ['RR', 1, 1], ['RR', 0.9, 50], ['G', 9.0], ['L', 9], 'NP'],
    ('PLD', 'RS'): [['RR', 0.0, 2], ['RR', 1.0, 3], ['RR', 0.9, 50], ['PS', 1.0, ['G', 4.0]],
                    ['PS', 1.0, ['L', 2.0]], ['PS', 0.2, ['L', 2.0]], ['M', 2.0, [0.0, 2.0], [0.5, 0.5]], 'NP'],
}


def run_sweep(case, ctx):
  kind, rel = case['kind'], case['rel']
  leaf, n = SWEEP[(kind, rel)][case['sweep']], case['n']
  slack = H * n if 'G' in repr(leaf) or 'M' in repr(leaf) else 0
  if not (leaf[0] in 'GM' or leaf[:2] in (['PS', 1.0], ['PS', 1])):
    slack = 0
  base = new(kind, rel)
  for _ in range(n):
    base.compose(dp.ev(leaf))
  b_obs, (b_eps, b_del) = observe(kind, base), queries(base)
  b_lo = [base.get_delta(e + slack) for e in EPS]
  b_hi = [base.get_delta(max(0.0, e - slack)) for e in EPS]
  progs = [[(leaf, n)], [(['S', leaf, n], 1)], [(['C', [leaf] * n], 1)], [(['C', [leaf]], n)],
           [(['S', ['C', ['NOOP', leaf]], n], 1)], [(leaf, 1), (leaf, n - 1)],
           [(['S', leaf, n - 1], 1), (['C', [leaf, 'NOOP']], 1)],
           [(['C', [['S', leaf, n - 1], leaf]], 1)]]
  progs += [[(['S', leaf, d], n // d)] for d in range(2, n) if n % d == 0]
  progs += [[(['S', ['S', leaf, d], n // d], 1)] for d in range(2, n) if n % d == 0]
  progs += [[(['C', [leaf] * d], n // d)] for d in range(2, n) if n % d == 0]
  for prog in progs:
    key = '%s %s %s' % (kind, rel, prog)
    acc = new(kind, rel)
    for d, c in prog:
      acc.compose(dp.ev(d), c)
      ctx.step()
    eps, dl = queries(acc)
    if kind == 'RDP':
      ctx.check(np.allclose(observe(kind, acc), b_obs, rtol=1e-9, atol=1e-13), key[:400],
                'Renyi losses %s differ from %s' % (observe(kind, acc), b_obs))
      ok = (np.allclose(eps, b_eps, rtol=1e-7, atol=1e-9) and
            np.allclose(dl, b_del, rtol=1e-6, atol=1e-12))
    else:
      ok = all(x <= s * (1 + 1e-7) + 1e-9 and x >= u * (1 - 1e-7) - 1e-9
               for x, s, u in zip(dl, b_hi, b_lo))
      ok = ok and all(close(x, y, slack) for x, y in zip(eps, b_eps))
    ctx.check(ok, key[:400], 'epsilon %s / delta %s differ from %s / %s' % (eps, dl, b_eps, b_del))
    ctx.trace()
  ctx.state((kind, rel, 'sweep', case['sweep'], n))


INNER = [  # leaves inside an event that treats them jointly
    ('RDP', 'AR', ['PS', 0.3, None]), ('RDP', 'RS', ['PS', 0.05, None]),
    ('RDP', 'RO', ['WOR', 10, 3, None]), ('RDP', 'AR', ['RP', None, 3.0, 1]),
    ('RDP', 'AR', ['RP', None, 3.0, 'inf']), ('RDP', 'RO', ['RP', None, 2.5, 0.5]),
    ('RDP', 'RS', ['RP', ['RP', None, 2.0, 0], 3.0, 1])]
INNER_LEAVES = [['G', 2.0], ['G', 3], ['G', 1.5]]


def subst(d, x):
  if d is None:
    return x
  return [subst(y, x) for y in d] if isinstance(d, list) else d


def run_inner(case, ctx):
  """Runs inside sampling or selection: grouping must not matter either."""
  kind, rel, tmpl = INNER[case['inner']]
  ms = [INNER_LEAVES[i] for i in case['ms']]
  sigma = dp.eff_sigma(['C', ms])
  base = new(kind, rel).compose(dp.ev(subst(tmpl, ['G', sigma])))
  for perm in sorted(set(itertools.permutations(case['ms']))):
    seq = [INNER_LEAVES[i] for i in perm]
    for f in forms(seq, 2) if len(seq) < 4 else forms(seq, 1):
      if tmpl[0] != 'RP' and 'NOOP' in repr(f):
        continue  # a no-op inside sampling is refused, by contract
      e = subst(tmpl, f)
      key = '%s %s %s' % (kind, rel, e)
      acc = new(kind, rel).compose(dp.ev(e))
      ctx.step()
      ctx.check(np.allclose(acc.rdp, base.rdp, rtol=1e-8, atol=1e-12), key[:400],
                'Renyi losses %s differ from those of the equivalent single '
                'Gaussian %s' % (acc.rdp, base.rdp))
      ctx.trace()
  ctx.state(('inner', case['inner'], tuple(sorted(case['ms']))))


def new(kind, rel):
  return dp.accountant(kind, rel, ORDERS, H)


def observe(kind, acc):
  if kind == 'RDP':
    return np.array(acc.rdp, dtype=float)
  return np.array([acc.get_delta(e) for e in EPS])


def queries(acc):
  return ([float(acc.get_epsilon(d)) for d in DELTAS],
          [float(acc.get_delta(e)) for e in EPS])


def run(case, ctx):
  if 'inner' in case:
    run_inner(case, ctx)
    return
  if 'sweep' in case:
    run_sweep(case, ctx)
    return
  kind, rel = case['kind'], case['rel']
  menu = MENU[(kind, rel)]
  ms = [menu[i] for i in case['ms']]
  base = new(kind, rel)
  for d in ms:
    base.compose(dp.ev(d))
  b_obs, (b_eps, b_del) = observe(kind, base), queries(base)
  ng = sum(1 for d in ms if d[0] == 'G')
  slack = H * (ng if ng > 1 else 0)
  shifted = [base.get_delta(max(0.0, e - slack)) for e in EPS]
  shifted_up = [base.get_delta(e + slack) for e in EPS]
  seen = set()
  for perm in sorted(set(itertools.permutations(range(len(ms))))):
    seq = [ms[i] for i in perm]
    if repr(seq) in seen:
      continue
    seen.add(repr(seq))
    for j, prog in enumerate(programs(seq, case['depth'])):
      key = '%s %s %s' % (kind, rel, prog)
      acc = new(kind, rel)
      for i, (d, c) in enumerate(prog):
        acc.compose(dp.ev(d), c)
        ctx.step()
        if (i + j) % 3 == 0:
          acc.get_epsilon(1e-3)   # interleaved queries must change nothing
          acc.compose(dp.ev('NOOP'))
          _ = acc.ledger
      eps, dl = queries(acc)
      if kind == 'RDP':
        ok = np.allclose(observe(kind, acc), b_obs, rtol=1e-9, atol=1e-13)
        ctx.check(ok, key[:400], 'Renyi losses %s differ from %s' % (observe(kind, acc), b_obs))
        ok = (np.allclose(eps, b_eps, rtol=1e-7, atol=1e-9) and
              np.allclose(dl, b_del, rtol=1e-6, atol=1e-12))
      else:
        ok = all(x <= s * (1 + 1e-7) + 1e-9 and x >= u * (1 - 1e-7) - 1e-9
                 for x, s, u in zip(dl, shifted, shifted_up))
        ok = ok and all(close(x, y, slack) for x, y in zip(eps, b_eps))
      ctx.check(ok, key[:400], 'epsilon %s / delta %s differ from %s / %s' % (
          eps, dl, b_eps, b_del))
      ctx.trace({'calls': [[d, c] for d, c in prog]} if j == 7 else None)
  ctx.state((kind, rel, tuple(sorted(case['ms']))))


def close(x, y, slack):
  if math.isinf(x) or math.isinf(y):
    return x == y
  return abs(x - y) <= slack + 1e-6
