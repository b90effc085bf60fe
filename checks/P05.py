"""Samplers of the C++ library."""
from mc import ccbin

PROPERTY = 'P05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the decision trees of the real C++ samplers'
RULE = '''every word pattern of the random source to a bound (all 4096 leading patterns times low parts, all positions of the first set bit) through the real UniformDouble and
Geometric in lockstep with a reference; every branch of the geometric, Laplace and Gaussian samplers to a depth with the exact probability of taking it, for a grid of
scales; the noised values of the mechanisms (rounding to the granularity, integers, extreme values)'''
ASSUMPTIONS = ['uniform and geometric draws are decided by the harness where the samplers are explored; the real rand.cc runs where it is checked', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p05.cc'])


def cases(tier):
  return ccbin.cases('P05', tier)


def run(case, ctx):
  ccbin.explore('P05', case, ctx)


teardown = ccbin.clean
