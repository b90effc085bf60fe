"""Partition selection and thresholds of the Go library."""
from mc import gobin

PROPERTY = 'G03'
LEVEL = 'model_checking'
TECHNIQUE = 'bisection of the branch threshold of the real decision on every state of a grid, against a recurrence in high precision'
RULE = '''for every epsilon, delta, number of partitions and pre-threshold of a grid and every number of users up to and past the point where partitions
are always kept: the exact probability that the real object keeps the partition (found by bisecting the uniform draw on which its decision turns,
with monotonicity checked) must satisfy the differential privacy inequalities between n and n+1 users in both directions, be zero below the
pre-threshold, and be close to the best possible one; the hard threshold it announces really keeps every partition'''
ASSUMPTIONS = ['random draws are decided by the harness (package rand replaced in the build)',
               'logging and gonum replaced by stand-ins']


def setup(tier):
  gobin.build()


def cases(tier):
  return gobin.call(['list', 'G03', tier])


def run(case, ctx):
  gobin.explore('G03', case, ctx)


teardown = gobin.clean
