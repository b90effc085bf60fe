"""Random primitives of the Go library."""
import json

from mc import gobin

PROPERTY = 'G06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of the bytes of the random source, run on the real primitives'
RULE = '''every primitive is run on every value of each byte it reads (all strings of up to three bytes for the geometric draw, all 256 bytes for
booleans in every position, each byte lane and all strings over four bytes for words, both ends of every residue window and the
acceptance limit for bounded integers, every exponent byte with the ends of the mantissa for uniform draws), and the resulting law is compared
exactly with the one promised'''
ASSUMPTIONS = ['the bytes of crypto/rand are uniform and independent']


def setup(tier):
  gobin.build('rnd', overlay=False)


teardown = gobin.clean


def cases(tier):
  yield {'all': True}


def run(case, ctx):
  r = json.loads(gobin.subprocess.run([gobin.BIN], stdout=gobin.subprocess.PIPE, text=True, timeout=600, check=True).stdout)
  for i in range(r['States']):
    ctx.state(i)
  ctx.step(r['Transitions'])
  ctx.traces += r['Traces']
  ctx.evals += r['Evals']
  ctx.samples += r['Samples']
  for f in r['Fails'] or []:
    ctx.fail(f['key'], f['msg'])
