"""The random source of the Go library under goroutines."""
import json

from mc import gobin

PROPERTY = 'G08'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all interleavings of the real code up to a preemption bound, under a controlled scheduler'
RULE = '''two and three goroutines draw words, bytes, signs, booleans and bounded integers from the real random source, before and across the end of its buffers of bytes and bits;
a scheduling point precedes every statement of the package (placed by a rewriting of its syntax tree at every build) and every step of its buffered reader and its locks; every interleaving
with at most the stated number of preemptions is run; the results are those of some order of the operations one after another by the same code; nobody is blocked for ever'''
ASSUMPTIONS = ['sequentially consistent memory, statements as units', 'locks and bufio replaced by those of the scheduler (20 bytes of buffer)', 'bytes of crypto/rand decided by the harness']


def setup(tier):
  gobin.build('race', overlay=False, race=True)


teardown = gobin.clean


def cases(tier):
  deep = tier != 'quick'
  for before in ('-', 'o', 'ww', 'wwo'):
    for prog, bound in (('w,w', 4 if deep else 3), ('ww,ww', 3 if deep else 2), ('wo,ow', 3 if deep else 2), ('o,o', 4), ('w,w,w', 2), ('n,wn', 2), ('wb,bw', 3 if deep else 2), ('bo,wb,s', 2 if deep else 1)):
      yield {'threads': prog, 'before': before, 'preemptions': bound}
  for k in (0, 1, 5, 6, 7, 8) if not deep else range(9):
    for prog, bound in (('b,b', 4 if deep else 3), ('bb,bb', 3 if deep else 2), ('bs,sb', 3 if deep else 2), ('b,b,b', 2)):
      yield {'threads': prog, 'before': 'b' * k or '-', 'preemptions': bound}


def run(case, ctx):
  r = gobin.subprocess.run([gobin.BIN, case['threads'], case['before'], str(case['preemptions'])], stdout=gobin.subprocess.PIPE, text=True, timeout=880, check=True)
  out = json.loads(r.stdout)
  for s in out['states'] or []:
    ctx.states.add(int(s, 16))
  ctx.step(out['transitions'])
  ctx.traces += out['traces']
  ctx.evals += out['evals']
  ctx.samples += (out['samples'] or [])[:1]
  for f in out['fails'] or []:
    ctx.fail(f['key'], f['msg'])
