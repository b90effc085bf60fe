"""Histories of the Java aggregations."""
from mc import javabin

PROPERTY = 'J01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of every operation sequence of the real Java objects against a reference model'
RULE = '''for every aggregation of the Java library (count, thresholded count, sums of integers and reals, mean, variance, quantiles, partition
selection, approximate bounds): every sequence of operations up to the depth bound (add values inside, outside, extreme and not-a-number, add
several, merge in both directions, merge with an incompatible object or with garbage, serialize, ask for a result or an interval) over two
objects and an incompatible one; outcomes are compared with a model of the states (fresh, result returned, serialized) that keeps the list of
contributions, the values handed to the noise with those of a fresh object given the same list; besides, every single difference of parameters; and merges of aggregations that differ in one or two parameters or have mirrored bounds'''
ASSUMPTIONS = ['noise decided by the harness through the public interface Noise, draws of SecureRandom by a provider', "the generator of value classes, some annotations and Guava's rarely used parts replaced by stand-ins", 'an object is not merged with itself']


def setup(tier):
  javabin.build()


def cases(tier):
  return javabin.cases('J01', tier)


def run(case, ctx):
  javabin.explore('J01', case, ctx)


teardown = javabin.clean
