"""Privacy on Beam: the budget of a PrivacySpec over histories of aggregations."""
from mc import gobin

PROPERTY = 'B02'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of histories of aggregations on one PrivacySpec against a model of its two budgets'
RULE = '''every pair of requests (all aggregations, public or private partitions, both noises, whole and partial budgets for the aggregation and
the selection of partitions, invalid combinations) and every triple of a smaller alphabet on a fresh PrivacySpec, histories over two
specs, and n equal parts for n up to 40: a request is granted exactly when the model of the budgets says so, its output is the one for
exactly the budget it is granted, what is left is granted and slightly more is refused; and NewPrivacySpec takes exactly the valid budgets'''
ASSUMPTIONS = ['Beam is replaced by an in-memory stand-in', 'a refusal is a call of log.Fatalf, which the stand-in turns into a panic', 'budgets are asked for one after the other']


def setup(tier):
  gobin.build('pb')


def cases(tier):
  return sorted(gobin.call(['list', 'B02', tier]), key=lambda c: (c['kind'] != 'triples', c['first'] != 'quantiles'))


def run(case, ctx):
  gobin.explore('B02', case, ctx)


teardown = gobin.clean
