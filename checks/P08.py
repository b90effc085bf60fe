"""The random source of the C++ library under threads."""
import json
import os
import shutil
import subprocess
import tempfile

from mc import ccbin

PROPERTY = 'P08'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all thread interleavings of the real code up to a preemption bound, under a controlled scheduler'
RULE = '''two and three threads draw words and uniform numbers from the real random source, from its first use on and with zero to three words left before its buffer is
filled again; every interleaving of their memory accesses (all loads, stores, atomic operations, locks and static initializers of rand.cc, as instrumented by the compiler) with at most
the stated number of preemptions is run in a process of its own; every word handed out is a word of the source, none is handed out twice or is torn, nobody is blocked for ever'''
ASSUMPTIONS = ['sequentially consistent memory', "the words of the source and the lock are the harness's; the layout of rand.cc is what g++ -fsanitize=thread instruments"]

_DIR = BIN = None


def setup(tier):
  global _DIR, BIN
  _DIR = tempfile.mkdtemp(prefix='verif-race-')
  flags = ['g++', '-std=c++17', '-O1', '-w', '-include', 'optional', '-I' + ccbin.ROOT + '/cc/stub', '-I' + ccbin.REPO + '/cc', '-I' + ccbin.REPO]
  try:
    ccbin._run(flags + ['-fsanitize=thread', '-c', '-o', _DIR + '/rand.o', ccbin.REPO + '/cc/algorithms/rand.cc'])
    ccbin._run(flags + ['-D__SANITIZE_THREAD__', '-c', '-o', _DIR + '/race.o', ccbin.ROOT + '/cc/race/race.cc'])
    ccbin._run(['g++', '-o', _DIR + '/race', _DIR + '/race.o', _DIR + '/rand.o', '-lpthread'])
  except BaseException:
    teardown()
    raise
  BIN = _DIR + '/race'


def teardown():
  if _DIR and os.path.isdir(_DIR):
    shutil.rmtree(_DIR, ignore_errors=True)


def cases(tier):
  deep = tier != 'quick'
  for left in (-1, 0, 1, 2, 3):
    for prog, bound in (('w,w', 4), ('ww,ww', 3 if deep else 2), ('wu,uw', 3 if deep else 2), ('www,ww', 3 if deep else 2), ('u,u', 4 if deep else 3),
                        ('w,w,w', 2), ('wu,u,w', 2 if deep else 1)):
      if left >= 0 or deep or prog in ('w,w', 'ww,ww', 'w,w,w'):
        yield {'threads': prog, 'left': left, 'preemptions': bound}


def run(case, ctx):
  r = subprocess.run([BIN, case['threads'], str(case['left']), str(case['preemptions'])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=880, check=True)
  out = json.loads(r.stdout)
  for s in out['states']:
    ctx.states.add(int(s, 16))
  ctx.step(out['transitions'])
  ctx.traces += out['traces']
  ctx.evals += out['evals']
  ctx.samples += out['samples'][:1]
  for f in out['fails']:
    ctx.fail(f['key'], f['msg'])
