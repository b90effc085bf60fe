"""The law of the noise of the Go library."""
from mc import gobin

PROPERTY = 'G05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the decision tree of the real samplers, branch probabilities found by bisection'
RULE = '''for every epsilon, delta and sensitivities of a grid: every decision of the Laplace sampler down to a depth (and along the outermost
paths three times deeper), with the exact probability of each branch compared with the geometric law that epsilon requires, including the sign, the
redrawn zero and the truncation; every cell, sign and offset class of the Gaussian sampler with its acceptance probability compared with the Gaussian
density, cells tiling the integers; the place where the value goes, for floats and integers, below and above unit granularity; sensitivities whose
product overflows'''
ASSUMPTIONS = ['random primitives as G06 establishes (replaced in the build)', 'granularity 2^-40 of the Laplace scale, 2^-57 of twice the Gaussian deviation']


def setup(tier):
  gobin.build()


def cases(tier):
  return gobin.call(['list', 'G05', tier])


def run(case, ctx):
  gobin.explore('G05', case, ctx)


teardown = gobin.clean
