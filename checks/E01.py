"""Event <-> named tuple round trip over all event trees up to a depth."""
import collections
import copy
import typing

import attr

from dp_accounting import dp_event as D
from mc import dp

PROPERTY = 'E01'
LEVEL = 'exploration'
RULE = '''every event tree up to the depth bound over all event classes and two user-defined ones (one with the name of a library event); a case is
non-trivial when it nests at least one event or holds a container field; distinct by structure'''
ASSUMPTIONS = ['field values are numbers, strings, lists, tuples, dicts, or events']


@attr.s(frozen=True, auto_attribs=True)
class UserEvent(D.DpEvent):
  """User-defined event with container fields."""
  name: str
  parts: typing.Any
  table: typing.Mapping


@attr.s(frozen=True, slots=True, auto_attribs=True)
class GaussianDpEvent(D.DpEvent):
  """User-defined event named like a library one, with other fields."""
  extra: int
  noise_multiplier: float


SameName = GaussianDpEvent


@attr.s(frozen=True, auto_attribs=True)
class PrivateEvent(D.DpEvent):
  """Has a field that a tuple cannot hold."""
  noise_multiplier: float
  _secret: int


@attr.s(frozen=True, auto_attribs=True)
class DerivedFieldEvent(D.DpEvent):
  """Has a field that cannot be given when it is made."""
  noise_multiplier: float
  derived: int = attr.ib(init=False, default=3)


def unconvertible():
  """Events without a tuple form, alone and inside of others."""
  for x in [PrivateEvent(1.0, 2), DerivedFieldEvent(1.0)]:
    yield x
    for y in wrap([x], []):
      if repr(x) in repr(y):
        yield y
    yield D.ComposedDpEvent([D.GaussianDpEvent(1.0), x])
    yield D.ComposedDpEvent((x, D.NoOpDpEvent()))
    yield UserEvent('n', [x], {})
    yield UserEvent('n', 0, {'k': x})
    yield D.SelfComposedDpEvent(D.PoissonSampledDpEvent(0.5, D.ComposedDpEvent([x])), 2)


def leaves():
  yield D.NoOpDpEvent()
  yield D.NonPrivateDpEvent()
  yield D.UnsupportedDpEvent()
  yield D.RandomizedResponseDpEvent(0.5, 3)
  yield D.GaussianDpEvent(1.5)
  yield D.GaussianDpEvent(2)
  yield D.LaplaceDpEvent(0.0)
  yield D.SingleEpochTreeAggregationDpEvent(1.0, 5)
  yield D.SingleEpochTreeAggregationDpEvent(1.0, [1, 2, 3])
  yield D.SingleEpochTreeAggregationDpEvent(1.0, (4, 5))
  yield D.MixtureOfGaussiansDpEvent(1.0, [0.0, 1.0], [0.5, 0.5])
  yield D.MixtureOfGaussiansDpEvent(1.0, (0.0, 1.0), (0.25, 0.75))
  yield SameName(7, 2.5)
  yield UserEvent('', [], {})
  yield UserEvent('a name', (1, 2), {'k': 1.0})


def wrap(xs, small):
  for x in xs:
    yield D.SelfComposedDpEvent(x, 3)
    yield D.PoissonSampledDpEvent(0.25, x)
    yield D.SampledWithReplacementDpEvent(10, 2, x)
    yield D.SampledWithoutReplacementDpEvent(10, 2, x)
    yield D.RepeatAndSelectDpEvent(x, 2.0, float('inf'))
    yield D.ComposedDpEvent([x])
    yield UserEvent('u', (x,), {'e': x})
    yield UserEvent('v', [x, 1], collections.OrderedDict([(1, x), (0, x)]))
  yield D.ComposedDpEvent([])
  for x in xs:
    for y in small:
      yield D.ComposedDpEvent([x, y])
      yield D.ComposedDpEvent((y, x))
      yield UserEvent('w', [x, y], {'a': x, 'b': [1]})


def universe(depth):
  l0 = list(leaves())
  l1 = list(wrap(l0, l0))
  if depth == 2:
    return l0 + l1
  l2 = list(wrap(l1, l0[3:6]))
  if depth == 3:
    return l0 + l1 + l2
  l3 = list(wrap(l2, l0[4:5]))
  return l0 + l1 + l2 + l3


def cases(tier):
  return [{'depth': 3 if tier == 'quick' else 4, 'slice': i, 'of': 16}
          for i in range(16)]


def walk(t, path, ctx, key):
  """No live events inside; every tuple names its class and its fields."""
  if isinstance(t, D.DpEvent):
    ctx.fail(key, 'tuple form holds a live event object at %s' % path)
  elif isinstance(t, tuple) and hasattr(t, '_fields'):
    if 'module_name' not in t._fields or 'class_name' not in t._fields:
      ctx.fail(key, 'tuple form without module/class name at %s' % path)
    for f in t._fields:
      walk(getattr(t, f), path + '.' + f, ctx, key)
  elif isinstance(t, dict):
    for k, v in t.items():
      walk(v, path + '[%r]' % (k,), ctx, key)
  elif isinstance(t, (list, tuple)):
    for i, v in enumerate(t):
      walk(v, path + '[%d]' % i, ctx, key)


def shape(x):
  """Structure with concrete types, as a comparable value."""
  if isinstance(x, D.DpEvent):
    return (type(x).__module__, type(x).__qualname__) + tuple(
        (a.name, shape(getattr(x, a.name))) for a in attr.fields(type(x)))
  if isinstance(x, dict):
    return (type(x), tuple((shape(k), shape(v)) for k, v in x.items()))
  if isinstance(x, (list, tuple)):
    return (type(x), tuple(shape(v) for v in x))
  return (type(x), x)


def tshape(t):
  """Expected structure read off the tuple form."""
  if isinstance(t, tuple) and hasattr(t, '_fields'):
    return (t.module_name, t.class_name) + tuple(
        (f, tshape(getattr(t, f))) for f in t._fields
        if f not in ('module_name', 'class_name'))
  if isinstance(t, dict):
    return (type(t), tuple((tshape(k), tshape(v)) for k, v in t.items()))
  if isinstance(t, (list, tuple)):
    return (type(t), tuple(tshape(v) for v in t))
  return (type(t), t)


def run(case, ctx):
  if case['slice'] == 0:
    for e in unconvertible():
      key = repr(e)[:300]
      try:
        t = e.to_named_tuple()
        ctx.check(False, 'unconvertible ' + key, 'converted without complaint to %r' % (t,))
      except ValueError:
        ctx.evals += 1
      ctx.step()
  for i, e in enumerate(universe(case['depth'])):
    if i % case['of'] != case['slice']:
      continue
    key = repr(e)[:300]
    before = shape(e)
    t = e.to_named_tuple()
    ctx.step(2)
    walk(t, 'root', ctx, key)
    ctx.check(tshape(t) == before, key, 'tuple form differs from the event: %r' % (t,))
    ctx.check(shape(e) == before, key, 'conversion modified the event')
    for a in attr.fields(type(e)):
      try:
        setattr(e, a.name, None)
        ctx.check(False, key, 'parameter %s of a description can be reassigned' % a.name)
        break
      except AttributeError:
        ctx.evals += 1
    b = D.DpEvent.from_named_tuple(t)
    ctx.check(type(b) is type(e), key, 'round trip changed the type: %r' % (b,))
    ctx.check(b == e and shape(b) == before, key,
              'round trip is not the identity: %r' % (b,))
    ctx.check(tshape(t) == before, key, 'conversion back modified the tuple')
    # converting from a subclass entry point and a second trip
    b2 = type(e).from_named_tuple(b.to_named_tuple())
    ctx.check(shape(b2) == before, key, 'second round trip differs')
    ctx.step(2)
    ctx.trace({'event': key} if i % 977 == 0 else None)
    ctx.ev(before, nontrivial='event' in key.lower() and key.count('(') > 1)
