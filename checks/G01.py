"""Histories of the Go aggregations."""
from mc import gobin

PROPERTY = 'G01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of every operation sequence of the real Go objects against a reference model'
RULE = '''for every aggregation of the Go library (count, sums, mean, variance, standard deviation, quantiles, partition selection): every
sequence of operations up to the depth bound (add values inside, outside and not-a-number, merge in both directions, merge with an
incompatible object, serialize and deserialize, ask for a result, a thresholded result, a confidence interval) over two objects, an
incompatible one and a deserialized one, each followed by asking all of them for their results; the values handed to the noise and the
results are compared with a model that keeps the list of contributions; besides, every single difference of parameters; and merges of aggregations that differ in one or two parameters or have mirrored bounds'''
ASSUMPTIONS = ['random draws are decided by the harness (package rand replaced in the build)', 'logging and gonum replaced by stand-ins',
               'an object is not merged with itself']


def setup(tier):
  gobin.build()


def cases(tier):
  return gobin.call(['list', 'G01', tier])


def run(case, ctx):
  gobin.explore('G01', case, ctx)


teardown = gobin.clean
