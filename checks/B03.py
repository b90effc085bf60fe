"""Privacy on Beam: transforming private collections keeps records with their privacy identifier."""
from mc import gobin

PROPERTY = 'B03'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of every chain of transforms of a private collection against a model on lists of records'
RULE = '''every chain of up to three transforms - ParDo with a function of each of the 32 documented shapes, DropKey, DropValue - on a private
collection, observed through clamped sums and counts per partition that show which records belong to the same identifier; every function
signature of up to four parameters and three results is taken by ParDo exactly when it is a documented one; an error of the function is
an error of the pipeline; MakePrivateFromStruct by every path (fields, nested fields, pointers, wrong paths) on every subset of five records'''
ASSUMPTIONS = ['Beam is replaced by an in-memory stand-in with its type checks and coders', 'identifiers in protocol buffers are not explored: the protocol buffer library is not installed']


def setup(tier):
  gobin.build('pb')


def cases(tier):
  return gobin.call(['list', 'B03', tier])


def run(case, ctx):
  gobin.explore('B03', case, ctx)


teardown = gobin.clean
