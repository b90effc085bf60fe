"""Privacy on Beam: what the aggregations give, over everything a runner may decide."""
from mc import gobin

PROPERTY = 'B01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of every decision a runner may take while the real transforms run on an in-memory Beam'
RULE = '''for every aggregation (count, count of identifiers, integer and float sums, mean, quantiles, variance, variance statistics, distinct
values per key, selection of keys), private partitions or public ones (slice, array, collection), both noises and the three test modes,
on every multiset of up to n records over two identifiers and three partitions and some larger ones: under every plan of the runner
(order of elements, how inputs are spread over accumulators and merged, coders on or off) every sequence of sampling decisions is run;
the set of outputs is exactly the set of direct aggregations, with the Go library and the declared parameters, of the admissible
boundings of the contributions'''
ASSUMPTIONS = ['Beam is replaced by an in-memory stand-in with its type checks and coders; a runner samples any subset of the size asked for',
               'random draws are decided by the harness (package rand replaced in the build)', 'logging, gonum and protocol buffers replaced by stand-ins']


def setup(tier):
  gobin.build('pb')


def cases(tier):
  return sorted(gobin.call(['list', 'B01', tier]), key=lambda c: c['agg'] not in ('quantiles', 'variance', 'variancestats', 'mean'))


def run(case, ctx):
  gobin.explore('B01', case, ctx)


teardown = gobin.clean
