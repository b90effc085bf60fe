"""Quantile trees of the Go library."""
from mc import gobin

PROPERTY = 'G07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small datasets and of noise outcomes per tree node on the real Go object'
RULE = '''for tree shapes up to nine leaves and bounds of both signs, narrow and huge: every dataset of up to three values from a menu (edges of leaves and
bounds, outside, not-a-number) with every rank of a grid without noise, where the result must lie in the leaf of the value at that rank; and every
assignment of noise outcomes from a menu (negative, zero, large) to the nodes looked at, where the result must stay inside the bounds,
never decrease in the rank, and be reproducible on repetition; and one level of two to four nodes with every assignment of noised counts around the fraction below
which a node counts as empty'''
ASSUMPTIONS = ['random draws are decided by the harness (package rand replaced in the build)',
               'logging and gonum replaced by stand-ins']


def setup(tier):
  gobin.build()


def cases(tier):
  return gobin.call(['list', 'G07', tier])


def run(case, ctx):
  gobin.explore('G07', case, ctx)


teardown = gobin.clean
