"""Neighbouring datasets, as seen by the noise of the Go aggregations."""
from mc import gobin

PROPERTY = 'G02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of pairs of neighbouring datasets run on the real Go objects, releases recorded at the noise'
RULE = '''for every aggregation of the Go library, every set of bounds in a list (mixed signs, one-sided, huge, unrepresentable widths), both noises, one or
three partitions per user, one to three contributions each: every base dataset of up to two contributions from a menu (edges of the bounds,
outside, infinite, not-a-number) and every set of contributions one more user can make; what reaches the noise must differ by no more
than the sensitivity the noise was asked to hide, the budgets spent add up to at most the request, and noise parameters never depend on data;
every single unusable parameter (and pairs of extreme ones) of every constructor and of the noises must be refused'''
ASSUMPTIONS = ['random draws are decided by the harness (package rand replaced in the build)',
               'logging and gonum replaced by stand-ins']


def setup(tier):
  gobin.build()


def cases(tier):
  return gobin.call(['list', 'G02', tier])


def run(case, ctx):
  gobin.explore('G02', case, ctx)


teardown = gobin.clean
