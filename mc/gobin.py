"""Builds the explorer of the Go library from the current tree, in a scratch directory."""
import atexit
import glob
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BIN = None
_DIR = None


class BuildError(Exception):
  pass


def build(pkg='mc', overlay=True, race=False):
  """Compiles go/<pkg> against the library; returns the path of the program."""
  global BIN, _DIR
  _DIR = tempfile.mkdtemp(prefix='verif-go-')
  atexit.register(clean)
  shutil.copytree(os.path.join(ROOT, 'go'), _DIR + '/src')
  mod = _DIR + '/src/%s/go.mod' % pkg
  text = open(mod).read().replace('=> /repo/', '=> ' + REPO + '/')
  with open(mod, 'w') as fh:
    fh.write(text)
  env = dict(os.environ, GOCACHE=_DIR + '/cache', GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', GONOSUMDB='*',
             GOTELEMETRY='off', HOME=_DIR, GOMODCACHE='/root/go/pkg/mod', GOPATH=_DIR + '/gopath', CGO_ENABLED='0', GOWORK='off')
  env.pop('GOROOT', None)
  cmd = ['go', 'build', '-o', _DIR + '/prog']
  if race:
    # the source file with scheduling points, and the scheduler next to it
    files = {}
    for p in sorted(glob.glob(REPO + '/go/rand/*.go')):
      if not p.endswith('_test.go'):
        files[p] = _DIR + '/' + os.path.basename(p)
        r = subprocess.run(['go', 'run', '.', p, files[p]], cwd=_DIR + '/src/race/transform', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
          raise BuildError('cannot place scheduling points: ' + r.stdout[-800:])
    resets = ['verifReset%d' % i for i in range(len(files))]
    for i, f in enumerate(files.values()):
      text = open(f).read().replace('VerifReset', resets[i])
      with open(f, 'w') as fh:
        fh.write(text)
    with open(_DIR + '/sched.go', 'w') as fh:
      fh.write(open(_DIR + '/src/race/sched.go.txt').read() + '\nfunc VerifReset() {\n' + ''.join('\t%s()\n' % r for r in resets) + '}\n')
    files[REPO + '/go/rand/zz_verif.go'] = _DIR + '/sched.go'
    with open(_DIR + '/overlay.json', 'w') as fh:
      json.dump({'Replace': files}, fh)
    cmd += ['-overlay', _DIR + '/overlay.json']
  elif overlay:
    with open(_DIR + '/overlay.json', 'w') as fh:
      json.dump({'Replace': {REPO + '/go/rand/rand.go': _DIR + '/src/overlay/rand.go'}}, fh)
    cmd += ['-overlay', _DIR + '/overlay.json']
  r = subprocess.run(cmd + ['.'], cwd=_DIR + '/src/' + pkg, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
  shutil.rmtree(_DIR + '/cache', ignore_errors=True)
  if r.returncode:
    out = r.stdout
    clean()
    raise BuildError('the library does not compile with its public interface: ' + out[-1500:])
  BIN = _DIR + '/prog'
  return BIN


def clean():
  global _DIR
  if _DIR and os.path.isdir(_DIR):
    shutil.rmtree(_DIR, ignore_errors=True)
  _DIR = None


def call(args, inp=None, timeout=700):
  r = subprocess.run([BIN] + args, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
  if r.returncode:
    raise RuntimeError('explorer ended with %d: %s' % (r.returncode, r.stderr[-800:]))
  return json.loads(r.stdout)


def explore(prop, case, ctx):
  """Runs one case and merges its report."""
  out = call(['run', prop, json.dumps(case)])
  for s in out['states'] or []:
    ctx.states.add(int(s, 16))
  ctx.step(out['transitions'])
  ctx.traces += out['traces']
  ctx.evals += out['evals']
  for s in (out['samples'] or [])[:2]:
    if len(ctx.samples) < 2:
      ctx.samples.append(s)
  for f in out['fails'] or []:
    ctx.fail(f['key'], f['msg'])
