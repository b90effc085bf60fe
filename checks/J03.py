"""Partition selection of the Java library."""
from mc import javabin

PROPERTY = 'J03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of counts and parameters, and exact probabilities by bisection over all 2^53 uniform draws'
RULE = '''for every epsilon, delta, number of partitions and pre-threshold of a grid and every count from below zero to beyond the hard threshold: the
number of uniform draws out of 2^53 that keep the partition equals the recurrence of the optimal selection, neighbouring counts are (epsilon, delta)
indistinguishable both in being kept and in being dropped, nothing is kept below the pre-threshold, and the hard threshold is the first count always kept;
with more than three partitions, every outcome of the Gaussian sampler in a grid is compared with the exact threshold'''
ASSUMPTIONS = ['every random bit of SecureRandom decided by the harness through a security provider', "the generator of value classes, some annotations and Guava's rarely used parts replaced by stand-ins"]


def setup(tier):
  javabin.build()


def cases(tier):
  return javabin.cases('J03', tier)


def run(case, ctx):
  javabin.explore('J03', case, ctx)


teardown = javabin.clean
