"""Sensitivity of the C++ algorithms."""
from mc import ccbin

PROPERTY = 'P02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of neighbouring datasets on the real C++ objects, with every mechanism recorded'
RULE = '''for every algorithm of the C++ library, bounds, partitions and contributions per user of a grid, and both noises: every multiset of values of a menu (inside,
at, outside the bounds, infinite, not-a-number) as the other users' data, every multiset of a user's contributions (the full block of identical ones included),
and (with approximated bounds) every pair of histogram bins found, (order statistics, quantiles) the search paths of a menu; the values handed to each mechanism with
and without the user differ by at most the sensitivity it was built for, same calibration, same number of calls, budgets within the requested one'''
ASSUMPTIONS = ['the mechanisms are replaced by recording ones through the library\'s own builder interface', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p02.cc'])


def cases(tier):
  return ccbin.cases('P02', tier)


def run(case, ctx):
  ccbin.explore('P02', case, ctx)


teardown = ccbin.clean
