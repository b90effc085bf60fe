"""Quantile trees of the C++ library."""
from mc import ccbin

PROPERTY = 'P06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of datasets and of all noise outcomes on the nodes of the real C++ quantile tree'
RULE = '''every multiset of values of a menu up to a size, over tree shapes and bounds, without noise: each rank's answer within a leaf of the value of that rank; every assignment of
noise outcomes of a menu to the nodes looked at: answers within the bounds, non-decreasing in the rank, unchanged when asked again without new noise, equal to a
reference search; intervals never change answers; sensitivities of the noise; every bad parameter; and one level of two to four nodes with every assignment of noised counts around the fraction below
which a node counts as empty'''
ASSUMPTIONS = ['the mechanisms are replaced by recording ones through the library\'s own builder interface', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p06.cc'])


def cases(tier):
  return ccbin.cases('P06', tier)


def run(case, ctx):
  ccbin.explore('P06', case, ctx)


teardown = ccbin.clean
