"""Quantile trees of the Java library."""
from mc import javabin

PROPERTY = 'J06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of datasets and of noise outcomes per node on the real Java objects'
RULE = '''for all shapes of trees in a menu: every multiset of values up to the size bound gives quantiles in the leaf of the value at that rank, monotone in the rank; every
assignment of noise from a menu to the nodes in the order they are looked at leaves quantiles in range, monotone, repeatable, and without further draws
when asked again, with intervals that contain them, are nested and repeatable; every noise that is a function of the count is compared with a reference on plain arrays; and one level of two to four nodes with every assignment of noised counts around the fraction below
which a node counts as empty'''
ASSUMPTIONS = ['noise decided by the harness', "the generator of value classes, some annotations and Guava's rarely used parts replaced by stand-ins"]


def setup(tier):
  javabin.build()


def cases(tier):
  return javabin.cases('J06', tier)


def run(case, ctx):
  javabin.explore('J06', case, ctx)


teardown = javabin.clean
