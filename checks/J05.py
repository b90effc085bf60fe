"""The law of the noise of the Java library."""
from mc import javabin

PROPERTY = 'J05'
LEVEL = 'model_checking'
TECHNIQUE = 'exploration of every branch of the samplers with the exact probability of taking it'
RULE = '''for Laplace, discrete Laplace and Gaussian noise (by epsilon and delta, and by rho) and every combination of a grid of parameters: the decision tree of the sampler is
explored to the depth bound, each threshold found by bisection over the draw and compared with the exact conditional probability; signs, zero, rounding and
granularity; integers are the rounded reals; for the Gaussian every cell of the proposal, its acceptance probability and the adjacency of cells; sensitivities
that do not fit integers are refused'''
ASSUMPTIONS = ['Random replaced through the constructors for tests', "the generator of value classes, some annotations and Guava's rarely used parts replaced by stand-ins"]


def setup(tier):
  javabin.build()


def cases(tier):
  return javabin.cases('J05', tier)


def run(case, ctx):
  javabin.explore('J05', case, ctx)


teardown = javabin.clean
