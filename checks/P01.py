"""Histories of the C++ algorithms."""
from mc import ccbin

PROPERTY = 'P01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of every operation sequence of the real C++ objects against a reference model'
RULE = '''for every algorithm of the C++ library (count, bounded sum, mean, variance, standard deviation, quantiles, order statistics, approximate bounds; integers and
reals; given and approximated bounds; both noises): every sequence of operations up to the depth bound (add values inside, outside the bounds and not-a-number,
merge serialized summaries in both directions, merge summaries of other kinds or configurations, ask for a result, for an interval, for the result of a list,
reset, move to a fresh object through a summary) over two objects, followed by asking both for their results; the values handed to the mechanisms and the
results are compared with a fresh object given exactly the contributions the model's list holds'''
ASSUMPTIONS = ['the mechanisms are replaced by recording ones through the library\'s own builder interface', 'absl logging replaced by a stand-in']


def setup(tier):
  ccbin.build(['p01.cc'])


def cases(tier):
  return ccbin.cases('P01', tier)


def run(case, ctx):
  ccbin.explore('P01', case, ctx)


teardown = ccbin.clean
