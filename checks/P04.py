"""Calibration of the C++ mechanisms."""
from mc import ccbin

PROPERTY = 'P04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of parameter grids to the ends of the number format on the real C++ mechanisms, against exact laws'
RULE = '''Laplace, Gaussian and minimum-variance mechanisms for every epsilon, delta and sensitivities of a grid that reaches the ends of the number format: the Gaussian
deviation achieves delta and is within 0.2 percent of the least that does; scale, variance, distribution function, quantile, confidence intervals, the announced probability of
exceeding a threshold and the measured one (bisection of the uniform draw) agree with the exact law; serialized and copied mechanisms behave the same; every
subset of parameters set, with every bad value in every place, is refused or accepted as documented'''
ASSUMPTIONS = ['the uniform draw is decided by the harness (rand.cc replaced in the build)', '80-bit arithmetic as the oracle', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p04.cc'])


def cases(tier):
  return ccbin.cases('P04', tier)


def run(case, ctx):
  ccbin.explore('P04', case, ctx)


teardown = ccbin.clean
