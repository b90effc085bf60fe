"""Privacy accounting of the C++ library."""
from mc import ccbin

PROPERTY = 'P07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of mechanism parameters, distributions and composition histories of the real C++ accounting against exact references'
RULE = '''every mechanism of a grid of parameters, estimate types and discretization intervals against its exact curve delta(epsilon); all pairs of distributions over
few outcomes; every history of compositions (with others, with itself 0, 1, 2, 5 times, at several tail masses, through serialization) up to the depth bound against an exact
convolution; all small probability vectors through the convolution and its truncation bounds; the searches on all small step functions; memory errors are caught by the sanitizer'''
ASSUMPTIONS = ['absl logging and kissfft replaced by stand-ins (the transform is the textbook discrete Fourier transform)']


def setup(tier):
  ccbin.build(['p07.cc'], extra=ccbin.accounting(), flags=['-fsanitize=address'])


def cases(tier):
  return ccbin.cases('P07', tier)


def run(case, ctx):
  ccbin.explore('P07', case, ctx)


teardown = ccbin.clean
