"""Partition selection of the C++ library."""
from mc import ccbin

PROPERTY = 'P03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of parameters and counts, measuring the decision of the real C++ object over its uniform draw'
RULE = '''for the three strategies (and the deprecated wrapper), every epsilon, delta, number of partitions and pre-threshold of a grid that reaches the ends of the number format,
every number of users from 1 until partitions are always kept (or the limit), and some huge ones: the probability of keeping, found by bisecting the uniform draw that
decides, against the announced one, the exact law of the noise or the optimal recurrence, the privacy inequalities between n and n - 1 users, the delta of a first
user in all its partitions; the value released along with the decision around the threshold; thresholds and deltas as inverses; every bad parameter'''
ASSUMPTIONS = ['the uniform draw is decided by the harness (rand.cc replaced in the build)', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p03.cc'])


def cases(tier):
  return ccbin.cases('P03', tier)


def run(case, ctx):
  ccbin.explore('P03', case, ctx)


teardown = ccbin.clean
