"""Sensitivity of the Java aggregations."""
from mc import javabin

PROPERTY = 'J02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of neighbouring datasets on the real Java objects'
RULE = '''for every aggregation of the Java library and every menu of parameters: for all multisets of contributions up to the size bound and all
contributions of one user up to her bound, the values handed to the noise move by no more than the sensitivities handed over with them, and the
budgets of all calls add up to the one given; bounds and numbers of contributions at the ends of the number formats are refused or give sensitivities
that are not understated; approximate bounds enclose whatever is numerous enough, and noise of every bin decides as documented'''
ASSUMPTIONS = ['noise decided by the harness', "the generator of value classes, some annotations and Guava's rarely used parts replaced by stand-ins"]


def setup(tier):
  javabin.build()


def cases(tier):
  return javabin.cases('J02', tier)


def run(case, ctx):
  javabin.explore('J02', case, ctx)


teardown = javabin.clean
