"""All histories of recorder operations against a list model."""
import itertools

from dp_accounting import dp_event as D
from dp_accounting import dp_event_builder as B
from mc import dp

PROPERTY = 'E02'
LEVEL = 'model_checking'
RULE = '''all operation sequences up to the depth bound over the alphabet below; model = run-length list of
leaf events'''
ASSUMPTIONS = ['events are not mutated by the caller after being recorded']

A, BB = ['G', 1.0], ['L', 2.0]
OPS = [('c', A, 1), ('c', BB, 1), ('c', A, 2), ('c', 'NOOP', 1), ('c', ['S', A, 2], 1),
       ('c', ['S', ['S', BB, 2], 3], 2), ('c', ['C', [A, BB]], 1),
       ('c', ['C', [A, BB]], 2), ('c', ['S', 'NOOP', 2], 1), ('c', ['C', []], 1),
       ('build',), ('bad', 'type'), ('bad', 'count0'), ('bad', 'countf'),
       ('bad', 'neg')]


def cases(tier):
  n = 5 if tier == 'quick' else 6
  k = 2
  return [{'prefix': list(p), 'depth': n} for p in itertools.product(
      range(len(OPS)), repeat=k)]


def snapshot(e):
  return repr(e)


def step(b, op, model, given, ctx, hist):
  key = 'history=%s' % (hist,)
  ctx.step()
  if op[0] == 'c':
    b.compose(dp.ev(op[1]), op[2])
    model = dp.merge(list(model) + list(expand_top(dp.ev(op[1]), op[2])))
  elif op[0] == 'build':
    e = b.build()
    ctx.check(dp.expand(e) == dp.merge(list(model)), key,
              'built event %r does not expand to the record' % (e,))
    given = given + [(e, snapshot(e))]
  else:
    exc = None
    try:
      if op[1] == 'type':
        b.compose('not an event')
      elif op[1] == 'count0':
        b.compose(dp.ev(A), 0)
      elif op[1] == 'countf':
        b.compose(dp.ev(A), 1.5)
      else:
        b.compose(dp.ev(['S', BB, 2]), -1)
    except (TypeError, ValueError) as x:
      exc = x
    ctx.check(exc is not None, key, 'malformed operation %r accepted' % (op,))
  return model, given


def expand_top(e, count):
  inner = dp.expand(e)
  if len(inner) == 1:
    return [(inner[0][0], inner[0][1] * count)]
  return inner * count


def run(case, ctx):
  depth = case['depth']
  rest = depth - len(case['prefix'])
  # every history of exactly `depth` operations; all prefixes are checked on
  # the way (each read compares the whole record)
  for tail in itertools.product(range(len(OPS)), repeat=rest):
    hist = case['prefix'] + list(tail)
    b = B.DpEventBuilder()
    model, given = [], []
    for i in hist:
      model, given = step(b, OPS[i], model, given, ctx, hist)
    e = b.build()
    e2 = b.build()
    key = 'history=%s' % (hist,)
    ctx.check(dp.expand(e) == dp.merge(list(model)), key,
              'final event %r does not expand to the record %r' % (e, model))
    ctx.check(dp.expand(e2) == dp.merge(list(model)), key, 'second read differs')
    for g, s in given:
      if snapshot(g) != s:
        ctx.fail(key, 'an event returned earlier changed: %s -> %r' % (s, g))
    ctx.state(repr(model))
    ctx.trace({'history': [repr(OPS[i]) for i in hist]} if tail[:1] == (3,) else None)
